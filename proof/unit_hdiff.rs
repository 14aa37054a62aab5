#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@include prelude.rs
//@include tree_spec.rs
//@include forest.rs
//@include forest_mut.rs
//@include forest_laws.rs
//@include forest_walk.rs
//@include forest_tree.rs
//@include html_types.rs
//@include html_dom.rs
//@include shadow_types.rs
//@include shadow_trees.rs
//@include page_content.rs
//@include doc_view.rs
//@include doc_build.rs
fn main() {}
