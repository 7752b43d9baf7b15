//! Instantiations of the code under test (compiled with the same
//! instrumentation, because generic functions are compiled here).
#![allow(warnings)]
#[macro_use]
pub mod table;
pub mod mc;
pub mod ops;
