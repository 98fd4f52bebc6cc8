// the library and its macros are usable at all
#![allow(dead_code, unused_imports, non_local_definitions, unexpected_cfgs)]
use tedium::*;
include!("../types.rs");
#[derive(Encode, Decode, Estimable, Debug, Clone, PartialEq)]
pub struct Plain {
    pub a: u8,
    pub b: Dynamic<u30, String>,
}
fn main() {}
