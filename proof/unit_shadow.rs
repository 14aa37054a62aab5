#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@include prelude.rs
//@include tree_spec.rs
//@include matching_types.rs
//@include forest.rs
//@include forest_mut.rs
//@include forest_path.rs
//@include forest_laws.rs
//@include forest_walk.rs
//@include forest_tree.rs
//@include html_types.rs
//@include html_dom.rs
//@include pairs_spec.rs
//@include chawathe_spec.rs
//@include shadow_types.rs
//@include shadow_trees.rs
//@include html_patch.rs
//@include shadow.rs
//@include shadow_steps.rs
//@include shadow_plan.rs
//@include shadow_convert.rs
fn main() {}
