// every generated record type, with nothing else in the way
#![allow(dead_code, unused_imports, non_local_definitions, unexpected_cfgs)]
use tedium::*;
include!("../types.rs");
include!("../../../harness/src/records/recs_items.inc");
fn main() {}
