#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@include prelude.rs
//@include forest.rs
//@include html_types.rs
//@include html_dom.rs
//@include html_ser.rs
fn main() {}
