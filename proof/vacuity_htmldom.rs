// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
pub mod vacuity_htmldom {
use vstd::prelude::*;
use crate::prelude::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_dom::*;
use crate::html_patch::*;
use crate::html_apply::*;
verus! {

#[verifier::rlimit(3)]
pub fn must_fail_apply<'a>(d: &mut Document<'a>, p: Patch<'a>, slots: &mut HashMap<u32, NodeId>)
    requires trees(old(d).m()), slots_ok(old(d).m(), old(slots)@), sound(old(d).m(), old(slots)@, p@)
{
    let r = d.apply_patch_with_slots(p, slots);
    if r.is_ok() { assert(false); }
}
#[verifier::rlimit(3)]
pub fn must_fail_move<'a>(d: &mut Document<'a>, p: Patch<'a>, slots: &mut HashMap<u32, NodeId>)
    requires trees(old(d).m()), slots_ok(old(d).m(), old(slots)@), sound(old(d).m(), old(slots)@, p@), p is Move
{
    let r = d.apply_patch_with_slots(p, slots);
    if r.is_ok() { assert(false); }
}
#[verifier::rlimit(3)]
pub fn must_fail_list<'a>(d: &mut Document<'a>, ps: Vec<Patch<'a>>)
    requires trees(old(d).m()), old(d).m().has(old(d).root), ps@.len() > 1,
        forall|c: DocM<'a>, x: NodeId| #[trigger] with_body(old(d).m(), old(d).root, c, x) ==> run_ok(c, body_slot(x), patches_v(ps@)),
{
    let r = d.apply_patches(ps);
    assert(false);
}

} // verus!
}
