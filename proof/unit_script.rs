#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@include prelude.rs
//@include tree_spec.rs
//@include matching_types.rs
//@include pairs_spec.rs
//@include chawathe_spec.rs
//@include chawathe.rs
//@include replay.rs
//@include vacuity_script.rs
fn main() {}
