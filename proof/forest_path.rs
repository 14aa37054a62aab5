// Paths: a slot, then child positions.
pub mod forest_path {
use vstd::prelude::*;
use crate::prelude::*;
use crate::forest::*;
use crate::forest_mut::*;
verus! {

pub type Slots = Map<u32, NodeId>;

/// Following child positions downwards from `r`.
pub open spec fn walk<D>(m: ForestM<D>, r: NodeId, p: Seq<u32>) -> Option<NodeId>
    decreases p.len()
{
    if p.len() == 0 { Some(r) } else {
        match walk(m, r, p.drop_last()) {
            Some(x) => if p.last() < m.kids(x).len() { Some(m.kids(x)[p.last() as int]) } else { None },
            None => None,
        }
    }
}
/// The node a path names: the root of a slot, then child positions.
pub open spec fn nav<D>(m: ForestM<D>, slots: Slots, path: Seq<u32>) -> Option<NodeId> {
    if path.len() > 0 && slots.contains_key(path[0]) { walk(m, slots[path[0]], path.skip(1)) } else { None }
}
/// The place a path names: a node and a position among its children.
pub open spec fn place<D>(m: ForestM<D>, slots: Slots, path: Seq<u32>) -> Option<(NodeId, int)> {
    if path.len() < 2 { None } else { match nav(m, slots, path.drop_last()) { Some(x) => Some((x, path.last() as int)), None => None } }
}
pub open spec fn slots_ok<D>(m: ForestM<D>, slots: Slots) -> bool {
    forall|s: u32| #![trigger slots[s]] slots.contains_key(s) ==> m.has(slots[s])
}
pub proof fn walk_in<D>(m: ForestM<D>, r: NodeId, p: Seq<u32>)
    requires trees(m), m.has(r)
    ensures walk(m, r, p) is Some ==> m.has(walk(m, r, p)->0)
    decreases p.len()
{
    if p.len() > 0 { walk_in(m, r, p.drop_last()); }
}
/// One step further along `p`.
pub proof fn walk_step<D>(m: ForestM<D>, r: NodeId, p: Seq<u32>, i: int)
    requires 0 <= i < p.len()
    ensures walk(m, r, p.take(i + 1)) == (match walk(m, r, p.take(i)) {
            Some(x) => if p[i] < m.kids(x).len() { Some(m.kids(x)[p[i] as int]) } else { None },
            None => None })
{
    assert(p.take(i + 1).drop_last() =~= p.take(i));
}
/// A walk that breaks off stays broken off.
pub proof fn walk_stuck<D>(m: ForestM<D>, r: NodeId, p: Seq<u32>, i: int)
    requires 0 <= i <= p.len(), walk(m, r, p.take(i)) is None
    ensures walk(m, r, p) is None
    decreases p.len() - i
{
    if i < p.len() { walk_step(m, r, p, i); walk_stuck(m, r, p, i + 1); } else { assert(p.take(i) =~= p); }
}

pub proof fn nav_in<D>(m: ForestM<D>, slots: Slots, path: Seq<u32>)
    requires trees(m), slots_ok(m, slots)
    ensures nav(m, slots, path) is Some ==> m.has(nav(m, slots, path)->0)
{
    if path.len() > 0 && slots.contains_key(path[0]) { walk_in(m, slots[path[0]], path.skip(1)); }
}
pub proof fn nav_all<D>(m: ForestM<D>, slots: Slots)
    requires trees(m), slots_ok(m, slots)
    ensures forall|path: Seq<u32>| (#[trigger] nav(m, slots, path)) is Some ==> m.has(nav(m, slots, path)->0)
{
    assert forall|path: Seq<u32>| (#[trigger] nav(m, slots, path)) is Some implies m.has(nav(m, slots, path)->0) by { nav_in(m, slots, path); }
}
pub proof fn place_in<D>(m: ForestM<D>, slots: Slots, path: Seq<u32>)
    requires trees(m), slots_ok(m, slots)
    ensures place(m, slots, path) is Some ==> m.has((place(m, slots, path)->0).0)
{
    nav_in(m, slots, path.drop_last());
}

} // verus!
}
