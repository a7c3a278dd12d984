pub mod rng;
pub mod rt;
pub mod cfg;
pub mod lexspec;
pub mod rx;
pub mod ebnf;
pub mod tree;
pub mod node;
pub mod gen;
pub mod props;
