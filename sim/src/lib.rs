//! pomsim: deterministic simulation of parsers generated by pomelo.
pub mod count;
pub mod des;
pub mod edit;
pub mod emit;
pub mod exec;
pub mod gen_;
pub mod ir;
pub mod json;
pub mod lalr;
pub mod listing;
pub mod model;
pub mod rng;
pub mod rt;
pub mod runner;
pub mod trace;
pub mod work;
/// The crate under test, for the generated corpus.
pub use pomelo;
