#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut)]
use vstd::prelude::*;
//@include prelude.rs
//@include tree_spec.rs
//@include matching_types.rs
//@include pairs_spec.rs
//@include chawathe_spec.rs
//@include chawathe.rs
//@include replay.rs
//@include matching_spec.rs
//@include same_spec.rs
//@include matching.rs
//@include forest.rs
//@include forest_mut.rs
//@include forest_path.rs
//@include forest_laws.rs
//@include forest_walk.rs
//@include forest_tree.rs
//@include html_types.rs
//@include html_dom.rs
//@include html_ser.rs
//@include shadow_types.rs
//@include shadow_trees.rs
//@include html_patch.rs
//@include shadow.rs
//@include shadow_steps.rs
//@include shadow_plan.rs
//@include shadow_convert.rs
//@include page_content.rs
//@include doc_view.rs
//@include doc_build.rs
//@include page_insert.rs
//@include page_diff.rs
//@include html_apply.rs
//@include whole.rs
//@include whole_run.rs
//@include whole_start.rs
//@include whole_end.rs
//@include whole_frame.rs
//@include whole_all.rs
fn main() {}
