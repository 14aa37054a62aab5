#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@include prelude.rs
//@include html_types.rs
//@include html_props.rs
//@include html_patch.rs
//@include html_server.rs
//@include vacuity_server.rs
fn main() {}
