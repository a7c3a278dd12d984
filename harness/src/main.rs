fn main() {
  let a: Vec<String> = std::env::args().collect();
  let code = if a.get(1).map(|s| s.as_str()) == Some("gen") { mon::gen::generate(&a[2..]) } else { mon::rt::cli(&mon::props::all()) };
  std::process::exit(code);
}
