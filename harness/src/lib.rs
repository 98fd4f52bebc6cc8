#![allow(unexpected_cfgs, unused_imports, non_local_definitions)]
#[macro_use]
pub mod ty;
pub mod alloc;
pub mod errs;
pub mod hist;
pub mod model;
pub mod monparser;
pub mod ops;
pub mod prng;
pub mod rep;
#[macro_use]
pub mod universe;
