//! Symbolic execution runtime.  The instrumented program calls the `sx_*` functions for every f64 operation;
//! the harness uses the functions of `api`.
pub mod big;
pub mod solver;
pub mod term;
pub mod rt;
pub mod api;
pub use api::*;
