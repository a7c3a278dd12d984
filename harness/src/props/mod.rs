use crate::rt::Prop;
pub mod lexing;
pub mod analysis;
pub mod parsing;
pub mod build;
pub mod runtime;
pub mod output;

pub fn all() -> Vec<Prop> {
  let mut v = vec![];
  v.extend(lexing::props());
  v.extend(analysis::props());
  v.extend(parsing::props());
  v.extend(build::props());
  v.extend(runtime::props());
  v.extend(output::props());
  v
}
