#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@include prelude.rs
//@include forest.rs
//@include forest_mut.rs
//@include forest_path.rs
//@include html_types.rs
//@include html_props.rs
//@include html_patch.rs
//@include html_dom.rs
//@include html_apply.rs
//@include html_edit.rs
fn main() {}
