pub mod engine;
pub mod gen;
pub mod cli;
pub mod track;
pub mod probe;
pub mod props;
pub mod refbin;
pub mod reg;
pub mod stdtypes;
pub mod text;
pub mod tomlgen;
pub mod val;
pub mod reexp {
    pub use nanoserde::*;
}
