// A tree that is (a part of) a forest keeps the laws.
pub mod forest_tree {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::forest::*;
use crate::forest_laws::*;
use crate::forest_walk::*;
verus! {

/// Index among the parent's children.
pub open spec fn place<D>(m: ForestM<D>, x: NodeId) -> int {
    match m.par(x) { Some(p) => m.kids(p).index_of(x), None => 0 }
}
pub proof fn place_of<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures m.par(x) is Some ==> m.has(m.par(x)->0) && 0 <= place(m, x) < m.kids(m.par(x)->0).len() && m.kids(m.par(x)->0)[place(m, x)] == x && m.kids(m.par(x)->0).no_duplicates(),
{
}
/// ASSUMED(memory): no page has anything like usize::MAX nodes.
#[verifier::external_body]
pub proof fn few_nodes<D>(a: &Arena<D>, x: NodeId)
    requires a@.has(x)
    ensures pre(a@, x).len() < usize::MAX / 2
{}
/// `t` is what hangs at and below `r`.
pub open spec fn seen_as<T: DiffTree, D>(t: &T, m: ForestM<D>, r: NodeId) -> bool {
    &&& t.s_root() == r
    &&& forall|x: NodeId| #[trigger] t.s_has(x) <==> m.has(x) && over(m, r, x)
    &&& t.live() == pre(m, r).to_set()
    &&& forall|x: NodeId| #[trigger] t.s_parent(x) == (if x == r { None } else { m.par(x) })
    &&& forall|x: NodeId| #[trigger] t.s_children(x) == m.kids(x)
    &&& forall|x: NodeId| #[trigger] t.s_child_count(x) == m.kids(x).len() as usize
    &&& forall|x: NodeId| #[trigger] t.s_position(x) == place(m, x) as usize
    &&& forall|x: NodeId| #[trigger] t.s_height(x) == tall(m, x) as usize
    &&& t.s_iter() == pre(m, r)
    &&& t.s_post() == post(m, r)
    &&& forall|x: NodeId| #[trigger] t.s_descendants(x) == pre(m, x)
    &&& forall|x: NodeId| #[trigger] t.s_near(x) ==> m.has(x) && !over(m, r, x)
    &&& t.s_rooted() ==> m.par(r) is None
}
proof fn over_anc<T: DiffTree, D>(t: &T, m: ForestM<D>, r: NodeId, x: NodeId, y: NodeId)
    requires seen_as(t, m, r), trees(m), m.has(r), m.has(y), over(m, r, y)
    ensures anc(t, x, y) <==> over(m, x, y) && over(m, r, x)
    decreases m.depth(y)
{
    lemma_anc_step(t, x, y);
    over_ix(m, r, y);
    if over(m, x, y) { over_ix(m, x, y); if over(m, r, x) { over_ix(m, r, x); } }
    assert(t.s_parent(y) == (if y == r { None } else { m.par(y) }));
    if y != r {
        let p = m.par(y)->0;
        assert(over(m, r, p));
        over_anc(t, m, r, x, p);
    }
}
proof fn shape_is<T: DiffTree, D>(t: &T, a: &Arena<D>, r: NodeId)
    requires seen_as(t, a@, r), trees(a@), a@.has(r)
    ensures law_shape(t), law_height(t), law_position(t), law_size(t)
{
    let m = a@;
    pre_holds(m, r);
    few_nodes(a, r);
    pre(m, r).unique_seq_to_set();
    broadcast use {not_deep, few_kids};
    assert(over(m, r, r));
    assert forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some implies
            t.s_has(t.s_parent(x)->0) && t.s_children(t.s_parent(x)->0).contains(x) && t.s_height(x) < t.s_height(t.s_parent(x)->0) by {
        let p = t.s_parent(x)->0;
        assert(m.par(x) == Some(p));
        assert(over(m, r, p));
        let j = choose|j: int| 0 <= j < m.kids(p).len() && m.kids(p)[j] == x;
        talls_fit(m, p, m.kids(p).len());
        assert(tall(m, m.kids(p)[j]) < talls(m, p, m.kids(p).len()));
    }
    assert forall|p: NodeId, i: int| #![trigger t.s_children(p)[i]] t.s_has(p) && 0 <= i < t.s_children(p).len() implies
            t.s_has(t.s_children(p)[i]) && t.s_parent(t.s_children(p)[i]) == Some(p) by {
        kid_depth(m, p, i);
        let k = m.kids(p)[i];
        over_ix(m, r, p);
        assert(over(m, r, k));
        assert(k != r);
    }
    assert forall|p: NodeId| t.s_has(p) implies #[trigger] t.s_child_count(p) == t.s_children(p).len() by { assert(a@.kids(p).len() < u32::MAX); }
    assert forall|x: NodeId, y: NodeId| #![trigger x.ix(), y.ix()] t.s_has(x) && t.s_has(y) && x.ix() == y.ix() implies x == y by { one_slot(a, x, y); }
    assert forall|x: NodeId, y: NodeId| #![trigger t.s_near(x), t.s_has(y)] t.s_near(x) && t.s_has(y) implies x.ix() != y.ix() by { if x.ix() == y.ix() { one_slot(a, x, y); } }
    assert forall|x: NodeId| #![trigger t.s_has(x)] t.s_has(x) <==> t.live().contains(x) by { assert(pre(m, r).contains(x) <==> m.has(x) && over(m, r, x)); }
    assert forall|p: NodeId| t.s_has(p) implies (#[trigger] t.s_children(p)).no_duplicates() by { assert(m.kids(p).no_duplicates()); }
    assert forall|x: NodeId| t.s_has(x) implies ((#[trigger] t.s_height(x)) == 0 <==> t.s_children(x).len() == 0) by { tall_fits(m, x); assert(tall(m, x) <= m.top); }
    assert forall|x: NodeId| #![trigger t.s_height(x)] t.s_has(x) implies t.s_height(x) == tall(m, x) by { tall_fits(m, x); assert(a@.top < usize::MAX / 2); }
    assert forall|x: NodeId| #[trigger] t.s_has(x) && x != t.s_root() implies t.s_parent(x) is Some by { assert(over(m, r, x)); }
    assert forall|x: NodeId| #![trigger t.s_position(x)] t.s_has(x) implies (match t.s_parent(x) {
        Some(p) => t.s_position(x) < t.s_children(p).len() && t.s_children(p)[t.s_position(x) as int] == x,
        None => edge(t, x) || t.s_position(x) == 0,
    }) by {
        if t.s_parent(x) is Some {
            let p = t.s_parent(x)->0;
            assert(m.par(x) == Some(p));
            assert(m.kids(p).contains(x));
            let i = m.kids(p).index_of(x);
            assert(0 <= i < m.kids(p).len() && m.kids(p)[i] == x);
            assert(a@.kids(p).len() < u32::MAX);
        } else { assert(x == r); }
    }
}
proof fn orders_are<T: DiffTree, D>(t: &T, a: &Arena<D>, r: NodeId)
    requires seen_as(t, a@, r), trees(a@), a@.has(r)
    ensures law_iter(t), law_post(t), law_desc(t)
{
    let m = a@;
    pre_holds(m, r);
    pre_order(m, r);
    post_holds(m, r);
    post_order(m, r);
    assert forall|i: int| 0 <= i < t.s_iter().len() implies t.s_has(#[trigger] t.s_iter()[i]) by { assert(pre(m, r).contains(pre(m, r)[i])); }
    assert forall|i: int| 0 <= i < t.s_post().len() implies t.s_has(#[trigger] t.s_post()[i]) by { assert(post(m, r).contains(post(m, r)[i])); }
    assert forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some implies
            t.s_iter().index_of(t.s_parent(x)->0) < t.s_iter().index_of(x) && t.s_post().index_of(x) < t.s_post().index_of(t.s_parent(x)->0) by {
        let p = t.s_parent(x)->0;
        assert(m.par(x) == Some(p) && over(m, r, p));
        let s = pre(m, r);
        assert(s.contains(p) && s.contains(x));
        let i = s.index_of(p);
        let j = s.index_of(x);
        assert(s[i] == p && s[j] == x && 0 <= i < s.len() && 0 <= j < s.len());
        assert(m.par(s[j]) == Some(s[i]));
        let u = post(m, r);
        assert(u.contains(p) && u.contains(x));
        let i = u.index_of(p);
        let j = u.index_of(x);
        assert(u[i] == p && u[j] == x && 0 <= i < u.len() && 0 <= j < u.len());
        assert(m.par(u[j]) == Some(u[i]));
    }
    assert forall|x: NodeId, y: NodeId| t.s_has(x) implies (#[trigger] t.s_descendants(x).contains(y) <==> t.s_has(y) && anc(t, x, y)) by {
        pre_holds(m, x);
        assert(t.s_descendants(x) == pre(m, x));
        assert(pre(m, x).contains(y) <==> m.has(y) && over(m, x, y));
        if m.has(y) {
            if over(m, x, y) { over_trans(m, r, x, y); }
            if over(m, r, y) { over_anc(t, m, r, x, y); }
        }
    }
    assert forall|x: NodeId, i: int| t.s_has(x) && 0 <= i < t.s_descendants(x).len() implies t.s_has(#[trigger] t.s_descendants(x)[i]) by {
        let y = t.s_descendants(x)[i];
        assert(t.s_descendants(x).contains(y));
    }
    assert forall|x: NodeId| t.s_has(x) implies (#[trigger] t.s_descendants(x)).no_duplicates() by { pre_holds(m, x); }
}
proof fn over_trans<D>(m: ForestM<D>, r: NodeId, x: NodeId, y: NodeId)
    requires trees(m), m.has(y), over(m, r, x), over(m, x, y)
    ensures over(m, r, y)
    decreases m.depth(y)
{
    over_ix(m, x, y);
    if x != y { over_trans(m, r, x, m.par(y)->0); }
}
pub proof fn lawful<T: DiffTree, D>(t: &T, a: &Arena<D>, r: NodeId)
    requires seen_as(t, a@, r), trees(a@), a@.has(r), types_ok::<T::Types>()
    ensures laws(t)
{
    shape_is(t, a, r);
    orders_are(t, a, r);
}

} // verus!
}
