// H03, H01: the shadow tree the patches are computed on.
pub mod shadow {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_mut::up;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_patch::*;
verus! {

//@item ShadowTree

/// ASSUMED(std)
pub assume_specification<T> [<[T]>::reverse] (s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();

pub type ShM<'a> = ForestM<NodeData<HtmlTreeTypes<'a>>>;

pub broadcast proof fn drop_push(s: Seq<u32>, x: u32)
    ensures #[trigger] s.push(x).drop_last() == s
{ assert(s.push(x).drop_last() =~= s); }
/// The node a path names: a slot, then child positions.
pub open spec fn lead<D>(m: ForestM<D>, r: NodeId, path: Seq<u32>) -> Option<NodeId> {
    if path.len() > 0 && path[0] < m.kids(r).len() && m.kids(m.kids(r)[path[0] as int]).len() > 0 {
        walk(m, m.kids(m.kids(r)[path[0] as int])[0], path.skip(1))
    } else { None }
}
/// `r` is the super root: its children are slots, each with at most one child.
pub open spec fn slotted<D>(m: ForestM<D>, r: NodeId) -> bool {
    &&& trees(m) && m.has(r) && m.par(r) is None
    &&& forall|k: int| #![trigger m.kids(r)[k]] 0 <= k < m.kids(r).len() ==> m.kids(m.kids(r)[k]).len() <= 1
}
/// Neither the super root nor a slot.
pub open spec fn real<D>(m: ForestM<D>, r: NodeId, x: NodeId) -> bool { m.has(x) && x != r && m.par(x) != Some(r) }
pub open spec fn slot_top<D>(m: ForestM<D>, r: NodeId, x: NodeId) -> bool { m.par(x) is Some && m.par(m.par(x)->0) == Some(r) }

/// A walk, seen from its first step.
pub proof fn walk_front<D>(m: ForestM<D>, p: NodeId, i: u32, rest: Seq<u32>)
    requires i < m.kids(p).len()
    ensures walk(m, p, seq![i] + rest) == walk(m, m.kids(p)[i as int], rest)
    decreases rest.len()
{
    let w = seq![i] + rest;
    if rest.len() == 0 {
        assert(w.drop_last() =~= Seq::<u32>::empty());
        assert(walk(m, p, w.drop_last()) == Some(p));
        assert(w.last() == i);
    } else {
        assert(w.drop_last() =~= seq![i] + rest.drop_last());
        assert(w.last() == rest.last());
        walk_front(m, p, i, rest.drop_last());
    }
}
pub proof fn rev_push(s: Seq<u32>, x: u32)
    ensures s.push(x).reverse() == seq![x] + s.reverse()
{ assert(s.push(x).reverse() =~= seq![x] + s.reverse()); }
pub proof fn above_up<D>(m: ForestM<D>, x: NodeId, y: NodeId)
    requires above(m, x, y), x != y
    ensures m.par(y) is Some, above(m, x, m.par(y)->0)
{
    let k = choose|k: nat| #[trigger] up(m, y, k) == Some(x);
    assert(k > 0);
    if m.par(y) is None { up_none(m, y, k); }
    above_kid(m, x, y);
}
pub proof fn up_none<D>(m: ForestM<D>, y: NodeId, k: nat)
    requires m.par(y) is None, k > 0
    ensures up(m, y, k) is None
    decreases k
{
    if k > 1 { up_none(m, y, (k - 1) as nat); } else { assert(up(m, y, 0) == Some(y)); }
}
pub proof fn above_down<D>(m: ForestM<D>, x: NodeId, y: NodeId)
    requires m.par(y) is Some, above(m, x, m.par(y)->0)
    ensures above(m, x, y)
{
    let k = choose|k: nat| #[trigger] up(m, m.par(y)->0, k) == Some(x);
    up_shift(m, y, k);
    assert(up(m, y, k + 1) == Some(x));
}

pub open spec fn blank(d: NodeData<HtmlTreeTypes<'_>>) -> bool {
    d.kind is Text && (d.text is None || (d.text->0)@.len() == 0)
}
/// One more, empty slot.
pub open spec fn opened<D>(a: ForestM<D>, b: ForestM<D>, r: NodeId) -> bool {
    let s = b.kids(r).last();
    &&& !a.has(s) && b.kids(r) == a.kids(r).push(s) && b.kids(s).len() == 0 && b.par(s) == Some(r)
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == (a.has(y) || y == s)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == a.par(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != r ==> b.kids(y) == a.kids(y)
}
/// `x` went to a new slot.
pub open spec fn parked<D>(a: ForestM<D>, b: ForestM<D>, r: NodeId, x: NodeId) -> bool {
    let s = b.kids(r).last();
    &&& !a.has(s) && b.kids(r) == a.kids(r).push(s) && b.kids(s) == seq![x] && b.par(s) == Some(r)
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == (a.has(y) || y == s)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == (if y == x { Some(s) } else { a.par(y) })
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != r ==> b.kids(y) == (if a.par(x) == Some(y) { without(a.kids(y), x) } else { a.kids(y) })
}
/// `x` left its place to an empty text node.
pub open spec fn blanked<'a>(a: ShM<'a>, b: ShM<'a>, x: NodeId) -> bool {
    let q = a.par(x)->0;
    let i = a.kids(q).index_of(x);
    let e = b.kids(q)[i];
    &&& !a.has(e) && b.kids(q) == a.kids(q).update(i, e) && b.kids(e).len() == 0 && b.par(e) == Some(q) && blank(b.data(e))
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == (a.has(y) || y == e)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == (if y == x { None } else { a.par(y) })
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != q ==> b.kids(y) == a.kids(y)
}
pub proof fn open_slot<D>(a: ForestM<D>, b: ForestM<D>, c: ForestM<D>, r: NodeId, s: NodeId, d: D)
    requires slotted(a, r), created(a, b, s, d), trees(b), trees(c), inserted(b, c, r, without(b.kids(r), s).len() as int, s)
    ensures opened(a, c, r), slotted(c, r)
{
    no_kid(b, r, s);
    assert(b.kids(r) == a.kids(r));
    assert(c.kids(r) =~= a.kids(r).push(s));
    assert(c.has(r));
    assert forall|k: int| #![trigger c.kids(r)[k]] 0 <= k < c.kids(r).len() implies c.kids(c.kids(r)[k]).len() <= 1 by {
        let t = c.kids(r)[k];
        if k < a.kids(r).len() { assert(t == a.kids(r)[k]); kid_index(a, r, k); assert(b.kids(t) == a.kids(t)); assert(c.kids(t) == b.kids(t)); }
        else { assert(b.kids(s).len() == 0); assert(c.kids(s) == b.kids(s)); }
    }
    assert forall|y: NodeId| #![trigger c.kids(y)] a.has(y) && y != r implies c.kids(y) == a.kids(y) by { assert(b.kids(y) == a.kids(y)); assert(b.par(s) is None); }
    assert(c.kids(s) == b.kids(s));
}
pub proof fn above_depth<D>(m: ForestM<D>, x: NodeId, y: NodeId)
    requires trees(m), m.has(y), above(m, x, y)
    ensures m.has(x), m.depth(x) <= m.depth(y), m.depth(x) == m.depth(y) ==> x == y
    decreases m.depth(y)
{
    if x != y { above_up(m, x, y); assert(m.has(m.par(y)->0)); above_depth(m, x, m.par(y)->0); }
}
/// Above a slot: the slot and the super root.
pub proof fn above_slot<D>(m: ForestM<D>, r: NodeId, s: NodeId, x: NodeId)
    requires m.par(s) == Some(r), m.par(r) is None, above(m, x, s)
    ensures x == s || x == r
{
    if x != s { above_up(m, x, s); if x != r { above_up(m, x, r); } }
}
pub proof fn gone_kid(s: Seq<NodeId>, x: NodeId)
    requires s.no_duplicates()
    ensures !without(s, x).contains(x), without(s, x).len() <= s.len()
{
    if s.contains(x) {
        let i = s.index_of(x);
        assert(0 <= i < s.len() && s[i] == x);
        let w = s.remove(i);
        if w.contains(x) { let j = choose|j: int| 0 <= j < w.len() && w[j] == x; assert(w[j] == (if j < i { s[j] } else { s[j + 1] })); }
    }
}
pub proof fn swap_kid(s: Seq<NodeId>, x: NodeId, e: NodeId)
    requires s.no_duplicates(), s.contains(x), !s.contains(e)
    ensures without(s.insert(s.index_of(x), e), x) == s.update(s.index_of(x), e)
{
    let i = s.index_of(x);
    assert(0 <= i < s.len() && s[i] == x);
    let w = s.insert(i, e);
    assert(w[i + 1] == x);
    assert(w.contains(x));
    let j = w.index_of(x);
    assert(0 <= j < w.len() && w[j] == x);
    assert(j == i + 1) by {
        if j < i { assert(w[j] == s[j]); } else if j == i { assert(w[j] == e); } else if j > i + 1 { assert(w[j] == s[j - 1]); }
    }
    assert(w.remove(i + 1) =~= s.update(i, e));
}
pub proof fn park_slot<D>(a: ForestM<D>, b: ForestM<D>, c: ForestM<D>, d: ForestM<D>, r: NodeId, x: NodeId)
    requires slotted(a, r), slotted(b, r), opened(a, b, r), real(a, r, x), detached(b, c, x), trees(c), trees(d),
        ({ let s = b.kids(r).last(); inserted(c, d, s, without(c.kids(s), x).len() as int, x) })
    ensures parked(a, d, r, x), slotted(d, r)
{
    let s = b.kids(r).last();
    assert(b.par(s) == Some(r));
    assert(c.kids(s) == b.kids(s)) by { no_kid(b, s, x); }
    assert(b.par(x) == a.par(x) && x != s);
    assert(c.kids(r) == b.kids(r));
    assert(d.kids(r) == b.kids(r));
    no_kid(c, s, x);
    assert(d.kids(s) =~= seq![x]);
    assert forall|y: NodeId| #![trigger d.kids(y)] a.has(y) && y != r implies d.kids(y) == (if a.par(x) == Some(y) { without(a.kids(y), x) } else { a.kids(y) }) by {
        assert(y != s); assert(b.kids(y) == a.kids(y)); assert(c.par(x) is None);
        let z = c.kids(y);
    }
    assert forall|k: int| #![trigger d.kids(r)[k]] 0 <= k < d.kids(r).len() implies d.kids(d.kids(r)[k]).len() <= 1 by {
        let t = d.kids(r)[k];
        if k < a.kids(r).len() { assert(t == a.kids(r)[k]); kid_index(a, r, k); assert(t != r) by { assert(a.par(r) is None); }; assert(a.kids(t).len() <= 1); gone_kid(a.kids(t), x); }
        else { assert(t == s); }
    }
    assert(d.par(r) == a.par(r)) by { assert(c.par(r) == b.par(r)); }
    assert(a.has(r) && d.has(r));
}
pub proof fn blank_place<'a>(a: ShM<'a>, b: ShM<'a>, c: ShM<'a>, d: ShM<'a>, r: NodeId, x: NodeId, e: NodeId)
    requires slotted(a, r), real(a, r, x), a.par(x) is Some, created(a, b, e, b.data(e)), blank(b.data(e)), trees(b), trees(c), trees(d),
        ({ let q = a.par(x)->0; inserted(b, c, q, without(b.kids(q), e).index_of(x), e) }), detached(c, d, x)
    ensures blanked(a, d, x), slotted(d, r)
{
    let q = a.par(x)->0;
    assert(a.has(q) && q != e && x != e);
    assert(a.kids(q).contains(x));
    no_kid(b, q, e);
    assert(b.par(e) is None);
    assert(b.kids(q) == a.kids(q));
    swap_kid(a.kids(q), x, e);
    let i = a.kids(q).index_of(x);
    assert(0 <= i < a.kids(q).len());
    assert(c.par(x) == Some(q));
    assert(c.kids(q) == a.kids(q).insert(i, e));
    assert(d.kids(q) == a.kids(q).update(i, e));
    assert(d.par(e) == Some(q)) by { assert(c.par(e) == Some(q)); }
    assert(d.kids(e).len() == 0) by { assert(b.kids(e).len() == 0); assert(c.kids(e) == b.kids(e)); }
    assert(d.data(e) == b.data(e)) by { assert(c.data(e) == b.data(e)); }
    assert forall|y: NodeId| #![trigger d.kids(y)] a.has(y) && y != q implies d.kids(y) == a.kids(y) by { assert(b.kids(y) == a.kids(y)); assert(c.kids(y) == b.kids(y)); }
    assert forall|y: NodeId| #![trigger d.par(y)] a.has(y) implies d.par(y) == (if y == x { None } else { a.par(y) }) by { assert(c.par(y) == b.par(y)); assert(b.par(y) == a.par(y)); }
    assert forall|y: NodeId| #![trigger d.data(y)] a.has(y) implies d.data(y) == a.data(y) by { assert(c.data(y) == b.data(y)); assert(b.data(y) == a.data(y)); }
    assert forall|y: NodeId| #![trigger d.has(y)] d.has(y) == (a.has(y) || y == e) by { assert(c.has(y) == b.has(y)); assert(b.has(y) == (a.has(y) || y == e)); }
    assert(d.par(r) is None);
    assert(q != r);
    assert(d.kids(r) == a.kids(r));
    assert forall|k: int| #![trigger d.kids(r)[k]] 0 <= k < d.kids(r).len() implies d.kids(d.kids(r)[k]).len() <= 1 by {
        let t = a.kids(r)[k]; kid_index(a, r, k); assert(a.kids(t).len() <= 1);
        if t != q { assert(d.kids(t) == a.kids(t)); }
    }
}
/// What inserting `n` as the `pos`-th child of `p` does: whatever was there goes to a new slot, gaps are filled with
/// empty text nodes.
pub open spec fn sput<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>) -> bool {
    let o = a.kids(p);
    let w = b.kids(p);
    &&& forall|y: NodeId| #![trigger b.has(y)] a.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != p && y != r ==> b.kids(y) == a.kids(y)
    &&& b.par(n) == Some(p)
    &&& if pos < o.len() {
            let s = b.kids(r).last();
            let d = o[pos];
            &&& slot == Some(a.kids(r).len() as u32)
            &&& !a.has(s) && b.kids(r) == a.kids(r).push(s) && b.kids(s) == seq![d] && b.par(s) == Some(r)
            &&& w == o.update(pos, n)
            &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) && y != n ==> b.par(y) == (if y == d { Some(s) } else { a.par(y) })
            &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) && !a.has(y) ==> y == s
        } else {
            &&& slot is None
            &&& b.kids(r) == a.kids(r)
            &&& w.len() == pos + 1 && w[pos] == n
            &&& forall|i: int| #![trigger w[i]] 0 <= i < o.len() ==> w[i] == o[i]
            &&& forall|i: int| #![trigger w[i]] o.len() <= i < pos ==> !a.has(w[i])
            &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) && y != n ==> b.par(y) == a.par(y)
            &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) && !a.has(y) ==> b.par(y) == Some(p) && blank(b.data(y)) && b.kids(y).len() == 0
        }
}
/// `x` leaves its place: a slot becomes empty, elsewhere an empty text node stays behind.
pub open spec fn slift<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId) -> bool {
    if slot_top(a, r, x) { detached(a, b, x) } else { blanked(a, b, x) }
}
pub open spec fn smoved<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, p: NodeId, pos: int, slot: Option<u32>) -> bool {
    exists|c: ShM<'a>| #[trigger] slift(a, c, r, x) && slotted(c, r) && sput(c, b, r, p, pos, x, slot)
}
/// The children of `p` were filled up with empty text nodes.
pub open spec fn sfill<'a>(a: ShM<'a>, b: ShM<'a>, p: NodeId) -> bool {
    let o = a.kids(p);
    let w = b.kids(p);
    &&& forall|y: NodeId| #![trigger b.has(y)] a.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != p ==> b.kids(y) == a.kids(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == a.par(y)
    &&& o.len() <= w.len()
    &&& forall|i: int| #![trigger w[i]] 0 <= i < o.len() ==> w[i] == o[i]
    &&& forall|i: int| #![trigger w[i]] o.len() <= i < w.len() ==> !a.has(w[i])
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) && !a.has(y) ==> b.par(y) == Some(p) && blank(b.data(y)) && b.kids(y).len() == 0
}
pub proof fn sfill_init<'a>(a: ShM<'a>, p: NodeId)
    ensures sfill(a, a, p)
{}
/// One more empty text node below `p`.
pub proof fn sfill_step<'a>(a: ShM<'a>, b: ShM<'a>, c: ShM<'a>, d: ShM<'a>, r: NodeId, p: NodeId, e: NodeId)
    requires slotted(a, r), trees(b), trees(c), trees(d), slotted(b, r), real(a, r, p), a.has(p), sfill(a, b, p), created(b, c, e, c.data(e)), blank(c.data(e)),
        inserted(c, d, p, without(c.kids(p), e).len() as int, e)
    ensures sfill(a, d, p), slotted(d, r), d.kids(p).len() == b.kids(p).len() + 1
{
    assert(b.has(p) && p != e);
    no_kid(c, p, e);
    assert(c.kids(p) == b.kids(p));
    assert(d.kids(p) =~= b.kids(p).push(e));
    assert(!a.has(e)) by { if a.has(e) { assert(b.has(e)); } }
    assert(c.par(e) is None);
    assert forall|y: NodeId| #![trigger d.kids(y)] b.has(y) && y != p implies d.kids(y) == b.kids(y) by { assert(c.kids(y) == b.kids(y)); }
    assert forall|y: NodeId| #![trigger d.par(y)] b.has(y) implies d.par(y) == b.par(y) by { assert(c.par(y) == b.par(y)); }
    assert forall|y: NodeId| #![trigger d.data(y)] b.has(y) implies d.data(y) == b.data(y) by { assert(c.data(y) == b.data(y)); }
    assert forall|y: NodeId| #![trigger d.has(y)] d.has(y) == (b.has(y) || y == e) by { assert(c.has(y) == (b.has(y) || y == e)); }
    assert(d.kids(e).len() == 0) by { assert(c.kids(e).len() == 0); }
    assert(d.data(e) == c.data(e));
    assert(d.par(e) == Some(p));
    assert(b.par(r) is None && b.has(r) && d.par(r) is None);
    assert(p != r);
    assert(d.kids(r) == b.kids(r));
    assert forall|k: int| #![trigger d.kids(r)[k]] 0 <= k < d.kids(r).len() implies d.kids(d.kids(r)[k]).len() <= 1 by {
        let t = b.kids(r)[k]; kid_index(b, r, k); assert(b.kids(t).len() <= 1);
        assert(t != p) by { assert(b.par(p) == a.par(p)); }
        assert(d.kids(t) == b.kids(t));
    }
}
/// `n` displaced the child at `pos`.
pub proof fn put_over<'a>(a: ShM<'a>, b: ShM<'a>, c: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId)
    requires slotted(a, r), real(a, r, p), a.has(n), a.par(n) is None, n != r, n != p, 0 <= pos < a.kids(p).len(), trees(b), trees(c),
        inserted(a, b, p, without(a.kids(p), n).index_of(a.kids(p)[pos]), n), parked(b, c, r, a.kids(p)[pos]), a.kids(r).len() < u32::MAX
    ensures sput(a, c, r, p, pos, n, Some(a.kids(r).len() as u32))
{
    let o = a.kids(p);
    let d = o[pos];
    no_kid(a, p, n);
    kid_index(a, p, pos);
    assert(b.kids(p) == o.insert(pos, n));
    assert(n != d);
    assert(d != r);
    assert(b.kids(r) == a.kids(r));
    assert(b.par(d) == Some(p));
    assert(c.kids(p) == without(b.kids(p), d));
    let w = b.kids(p);
    assert(w.no_duplicates());
    assert(w[pos + 1] == d);
    kid_index(b, p, pos + 1);
    assert(w.remove(pos + 1) =~= o.update(pos, n));
    let s = c.kids(r).last();
    assert(!a.has(s)) by { assert(b.has(s) == a.has(s)); }
    assert forall|y: NodeId| #![trigger c.kids(y)] a.has(y) && y != p && y != r implies c.kids(y) == a.kids(y) by { assert(b.has(y)); assert(b.kids(y) == a.kids(y)); }
    assert forall|y: NodeId| #![trigger c.par(y)] a.has(y) && y != n implies c.par(y) == (if y == d { Some(s) } else { a.par(y) }) by { assert(b.has(y)); assert(b.par(y) == a.par(y)); }
    assert forall|y: NodeId| #![trigger c.data(y)] a.has(y) implies c.data(y) == a.data(y) by { assert(b.has(y)); assert(b.data(y) == a.data(y)); }
    assert forall|y: NodeId| #![trigger c.has(y)] c.has(y) == (a.has(y) || y == s) by { assert(b.has(y) == a.has(y)); }
    assert(b.has(n));
    assert(c.par(n) == Some(p));
}
/// `n` went behind the children of `p`.
pub proof fn put_behind<'a>(a: ShM<'a>, b: ShM<'a>, c: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId)
    requires slotted(a, r), slotted(b, r), real(a, r, p), a.has(n), a.par(n) is None, n != r, n != p, a.kids(p).len() <= pos, trees(b), trees(c), sfill(a, b, p), b.kids(p).len() == pos,
        inserted(b, c, p, without(b.kids(p), n).len() as int, n)
    ensures sput(a, c, r, p, pos, n, None), slotted(c, r)
{
    let o = a.kids(p);
    assert(b.has(n) && b.has(p) && b.par(n) is None);
    no_kid(b, p, n);
    assert(c.kids(p) =~= b.kids(p).push(n));
    assert forall|y: NodeId| #![trigger c.kids(y)] b.has(y) && y != p implies c.kids(y) == b.kids(y) by {}
    assert forall|y: NodeId| #![trigger c.kids(y)] a.has(y) && y != p && y != r implies c.kids(y) == a.kids(y) by { assert(b.has(y)); assert(b.kids(y) == a.kids(y)); }
    assert forall|y: NodeId| #![trigger c.par(y)] a.has(y) && y != n implies c.par(y) == a.par(y) by { assert(b.par(y) == a.par(y)); }
    assert forall|y: NodeId| #![trigger c.data(y)] a.has(y) implies c.data(y) == a.data(y) by { assert(b.data(y) == a.data(y)); }
    assert forall|y: NodeId| #![trigger c.has(y)] a.has(y) implies c.has(y) by { assert(b.has(y)); }
    assert forall|y: NodeId| #![trigger c.has(y)] c.has(y) && !a.has(y) implies c.par(y) == Some(p) && blank(c.data(y)) && c.kids(y).len() == 0 by {
        assert(b.has(y)); assert(b.par(y) == Some(p)); assert(y != p); assert(c.kids(y) == b.kids(y)); assert(c.data(y) == b.data(y)); }
    assert forall|i: int| #![trigger c.kids(p)[i]] 0 <= i < o.len() implies c.kids(p)[i] == o[i] by { assert(c.kids(p)[i] == b.kids(p)[i]); }
    assert forall|i: int| #![trigger c.kids(p)[i]] o.len() <= i < pos implies !a.has(c.kids(p)[i]) by { assert(c.kids(p)[i] == b.kids(p)[i]); }
    assert(b.has(r) && b.kids(r) == a.kids(r));
    assert(c.kids(r) == b.kids(r));
    assert(c.par(r) is None);
    assert forall|k: int| #![trigger c.kids(r)[k]] 0 <= k < c.kids(r).len() implies c.kids(c.kids(r)[k]).len() <= 1 by {
        let t = b.kids(r)[k]; kid_index(b, r, k); assert(b.kids(t).len() <= 1);
        assert(t != p) by { assert(b.par(p) == a.par(p)); }
        assert(c.kids(t) == b.kids(t));
    }
}
/// After `n` was put before the child at `pos`, the slots are as they were.
pub proof fn before_slots<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, n: NodeId, k: int)
    requires slotted(a, r), real(a, r, p), a.has(n), a.par(n) is None, n != r, n != p, trees(b), inserted(a, b, p, k, n)
    ensures slotted(b, r), b.kids(r) == a.kids(r)
{
    assert(b.has(r) && b.par(r) is None);
    assert(b.kids(r) == a.kids(r));
    assert forall|k: int| #![trigger b.kids(r)[k]] 0 <= k < b.kids(r).len() implies b.kids(b.kids(r)[k]).len() <= 1 by {
        let t = a.kids(r)[k]; kid_index(a, r, k); assert(a.kids(t).len() <= 1);
        assert(t != p);
        assert(b.kids(t) == a.kids(t));
    }
}
/// After `x` left, the slots are slots and `p` is where it was.
pub proof fn lift_end<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, p: NodeId)
    requires slotted(a, r), trees(b), real(a, r, x), a.par(x) is Some, real(a, r, p), !above(a, x, p), slift(a, b, r, x)
    ensures slotted(b, r), real(b, r, p), b.has(x), b.par(x) is None, !above(b, x, p), b.kids(r) == a.kids(r), x != p
{
    above_self(a, p);
    assert(b.has(x) && b.has(p) && b.has(r));
    assert(b.par(p) == a.par(p));
    assert(forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == a.par(y) || b.par(y) is None);
    if above(b, x, p) { above_less(a, b, x, p); }
    let q = a.par(x)->0;
    assert(a.has(q) && q != r);
    assert(b.par(r) is None);
    assert(b.kids(r) == a.kids(r));
    assert forall|k: int| #![trigger b.kids(r)[k]] 0 <= k < b.kids(r).len() implies b.kids(b.kids(r)[k]).len() <= 1 by {
        let t = a.kids(r)[k]; kid_index(a, r, k); assert(a.kids(t).len() <= 1);
        gone_kid(a.kids(t), x);
        if t != q { assert(b.kids(t) == a.kids(t)); }
    }
}
/// The old page, hung below a slot below a new super root.
pub open spec fn hung<'a>(a: ShM<'a>, m: ShM<'a>, root: NodeId, r: NodeId) -> bool {
    let s = m.kids(r)[0];
    &&& slotted(m, r)
    &&& !a.has(r) && !a.has(s) && r != s && m.has(s)
    &&& m.kids(r) == seq![s] && m.par(s) == Some(r) && m.kids(s) == seq![root] && m.par(root) == Some(s)
    &&& forall|y: NodeId| #![trigger m.has(y)] m.has(y) == (a.has(y) || y == r || y == s)
    &&& forall|y: NodeId| #![trigger m.data(y)] a.has(y) ==> m.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger m.par(y)] a.has(y) && y != root ==> m.par(y) == a.par(y)
    &&& forall|y: NodeId| #![trigger m.kids(y)] a.has(y) ==> m.kids(y) == a.kids(y)
}
pub proof fn hang_up<'a>(a: ShM<'a>, b: ShM<'a>, c: ShM<'a>, d: ShM<'a>, e: ShM<'a>, f: ShM<'a>, root: NodeId, r: NodeId, s: NodeId)
    requires trees(a), a.has(root), a.par(root) is None, created(a, b, r, b.data(r)), created(b, c, s, c.data(s)), trees(b), trees(c), trees(d), trees(e), trees(f),
        inserted(c, d, r, without(c.kids(r), s).len() as int, s), detached(d, e, root), inserted(e, f, s, without(e.kids(s), root).len() as int, root)
    ensures hung(a, f, root, r)
{
    no_kid(c, r, s);
    assert(c.kids(r).len() == 0) by { assert(b.kids(r).len() == 0); }
    assert(d.kids(r) =~= seq![s]);
    assert(d.par(root) is None) by { assert(c.par(root) is None) by { assert(b.par(root) is None); } }
    assert(e.kids(r) == d.kids(r));
    assert(c.kids(s).len() == 0);
    assert(d.kids(s) == c.kids(s));
    assert(e.kids(s) == d.kids(s));
    no_kid(e, s, root);
    assert(f.kids(s) =~= seq![root]);
    assert(f.kids(r) == e.kids(r));
    assert(a.has(root) && b.has(root) && root != r && root != s);
    assert forall|y: NodeId| #![trigger f.has(y)] f.has(y) == (a.has(y) || y == r || y == s) by { assert(e.has(y) == d.has(y)); assert(d.has(y) == c.has(y)); assert(c.has(y) == (b.has(y) || y == s)); assert(b.has(y) == (a.has(y) || y == r)); }
    assert forall|y: NodeId| #![trigger f.data(y)] a.has(y) implies f.data(y) == a.data(y) by { assert(b.has(y)); assert(e.data(y) == d.data(y)); assert(d.data(y) == c.data(y)); assert(c.data(y) == b.data(y)); assert(b.data(y) == a.data(y)); }
    assert forall|y: NodeId| #![trigger f.par(y)] a.has(y) && y != root implies f.par(y) == a.par(y) by { assert(b.has(y)); assert(e.par(y) == d.par(y)); assert(d.par(y) == c.par(y)); assert(c.par(y) == b.par(y)); assert(b.par(y) == a.par(y)); }
    assert forall|y: NodeId| #![trigger f.kids(y)] a.has(y) implies f.kids(y) == a.kids(y) by { assert(b.has(y)); assert(e.kids(y) == d.kids(y)); assert(d.kids(y) == c.kids(y)); assert(c.kids(y) == b.kids(y)); assert(b.kids(y) == a.kids(y)); }
    assert(f.par(s) == Some(r)) by { assert(d.par(s) == Some(r)); assert(e.par(s) == d.par(s)); }
    assert(f.par(r) is None) by { assert(b.par(r) is None); assert(c.par(r) == b.par(r)); assert(d.par(r) == c.par(r)); assert(e.par(r) == d.par(r)); }
}
/// The positions collected so far, read backwards, lead from `c` to `n`.
pub open spec fn trail<D>(m: ForestM<D>, c: NodeId, path: Seq<u32>, n: NodeId) -> bool {
    if path.len() == 0 { c == n } else { walk(m, c, path.reverse()) == Some(n) }
}
impl<'a> ShadowTree<'a> {
    pub open spec fn m(&self) -> ShM<'a> { self.arena@ }
    pub open spec fn inv(&self) -> bool {
        slotted(self.m(), self.super_root) && self.next_slot == self.m().kids(self.super_root).len()
    }

    //@fn ShadowTree::new loops=0
    //@attr pub(crate)
    //@params arena original_root
    //@spec
        requires trees(arena@), arena@.has(original_root), arena@.par(original_root) is None
        ensures hung(arena@, r.m(), original_root, r.super_root), // @H03 @H01
            r.inv(), r.m().kids(r.super_root).len() == 1, // @H03 @H01
    //@start
        let ghost a = arena@;
    //@after new_node 0
        let ghost b = arena@;
    //@after new_node 1
        let ghost c = arena@;
        proof { new_above(b, c, slot0, c.data(slot0), super_root); }
    //@after append 0
        let ghost d = arena@;
    //@after detach 0
        let ghost e = arena@;
        proof {
            assert(d.par(slot0) == Some(super_root));
            assert(e.par(slot0) == d.par(slot0));
            assert(b.has(original_root) && original_root != super_root && original_root != slot0);
            assert(e.par(super_root) is None) by { assert(b.par(super_root) is None); assert(c.par(super_root) == b.par(super_root)); assert(d.par(super_root) == c.par(super_root)); }
            if above(e, original_root, slot0) { above_slot(e, super_root, slot0, original_root); }
        }
    //@tail
        proof { hang_up(a, b, c, d, e, arena@, original_root, super_root, slot0); }
    //@end
    //@fn ShadowTree::get_slot loops=0
    //@attr pub(crate)
    //@spec
        requires self.m().has(self.super_root)
        ensures r == (if slot < self.m().kids(self.super_root).len() { Some(self.m().kids(self.super_root)[slot as int]) } else { None }), // @H03 @H01
    //@end
    //@fn ShadowTree::slot0_content loops=0
    //@attr pub(crate)
    //@spec
        requires self.inv(), self.m().kids(self.super_root).len() > 0, self.m().kids(self.m().kids(self.super_root)[0]).len() > 0
        ensures r == self.m().kids(self.m().kids(self.super_root)[0])[0], // @H03 @H01
    //@end
    //@fn ShadowTree::compute_path loops=1
    //@attr pub(crate)
    //@params node
    //@var path 0 SmallVec
    //@var current 0 node
    //@spec
        requires self.inv(), real(self.m(), self.super_root, node), above(self.m(), self.super_root, node)
        ensures lead(self.m(), self.super_root, r@) == Some(node), // @H03 @H01
    //@loop 0 head
        invariant_except_break self.inv(), real(self.m(), self.super_root, node), real(self.m(), self.super_root, current), above(self.m(), self.super_root, current),
            trail(self.m(), current, path@, node), // @H03 @H01
        ensures lead(self.m(), self.super_root, path@.reverse()) == Some(node), // @H03 @H01
        decreases self.m().depth(current)
    //@loop 0 top
        proof {
            broadcast use few_kids;
            above_up(self.m(), self.super_root, current);
            if path@.len() == 0 { assert(path@.reverse() =~= Seq::<u32>::empty()); }
            let p = self.m().par(current)->0;
            assert(self.m().has(p));
            assert(self.m().kids(p).contains(current));
            let i = self.m().kids(p).index_of(current);
            assert(0 <= i < self.m().kids(p).len() && self.m().kids(p)[i] == current);
            kid_index(self.m(), p, i);
            rev_push(path@, i as u32);
            walk_front(self.m(), p, i as u32, path@.reverse());
            if self.m().par(p) == Some(self.super_root) {
                let k = self.m().kids(self.super_root).index_of(p);
                assert(self.m().kids(self.super_root).contains(p));
                assert(0 <= k < self.m().kids(self.super_root).len() && self.m().kids(self.super_root)[k] == p);
                assert(i == 0);
                rev_push(path@, k as u32);
                assert((seq![k as u32] + path@.reverse()).skip(1) =~= path@.reverse());
                kid_index(self.m(), self.super_root, k);
            }
        }
    //@end
    //@fn ShadowTree::get_node_ref loops=0
    //@attr pub(crate)
    //@params node
    //@spec
        requires self.inv(), real(self.m(), self.super_root, node), above(self.m(), self.super_root, node)
        ensures lead(self.m(), self.super_root, r.0.0@) == Some(node), // @H03 @H01
    //@end
    //@fn ShadowTree::get_node_ref_with_position loops=0
    //@attr pub(crate)
    //@params parent position
    //@spec
        requires self.inv(), real(self.m(), self.super_root, parent), above(self.m(), self.super_root, parent), position < u32::MAX
        ensures r.0.0@.len() > 0, lead(self.m(), self.super_root, r.0.0@.drop_last()) == Some(parent), r.0.0@.last() == position, // @H03 @H01
    //@start
        broadcast use drop_push;
    //@end
    //@fn ShadowTree::create_slot loops=0
    //@spec
        requires old(self).inv()
        ensures r == old(self).next_slot, final(self).super_root == old(self).super_root, final(self).inv(), // @H03 @H01
            opened(old(self).m(), final(self).m(), old(self).super_root), // @H03 @H01
    //@start
        broadcast use few_kids;
        let ghost a = self.m();
    //@after new_node 0
        let ghost b = self.m();
        proof { new_above(a, b, slot_node, b.data(slot_node), self.super_root); }
    //@tail
        proof { open_slot(a, b, self.m(), self.super_root, slot_node, b.data(slot_node)); }
    //@end
    //@fn ShadowTree::detach_to_slot loops=0
    //@params node
    //@spec
        requires old(self).inv(), real(old(self).m(), old(self).super_root, node), old(self).m().kids(old(self).super_root).len() < u32::MAX
        ensures r == old(self).next_slot, final(self).super_root == old(self).super_root, final(self).inv(), // @H03 @H01
            parked(old(self).m(), final(self).m(), old(self).super_root, node), // @H03 @H01
    //@start
        let ghost a = self.m();
        let ghost r0 = self.super_root;
    //@after create_slot 0
        let ghost b = self.m();
    //@after detach 0
        let ghost c = self.m();
        proof {
            assert(b.par(slot_node) == Some(r0));
            if above(c, node, slot_node) { above_slot(c, r0, slot_node, node); }
        }
    //@tail
        proof { park_slot(a, b, c, self.m(), r0, node); }
    //@end
    //@fn ShadowTree::detach_with_placeholder loops=0
    //@attr pub(crate)
    //@params node
    //@spec
        requires old(self).inv(), real(old(self).m(), old(self).super_root, node), old(self).m().par(node) is Some
        ensures final(self).super_root == old(self).super_root, final(self).inv(), // @H03 @H01
            blanked(old(self).m(), final(self).m(), node), // @H03 @H01
    //@start
        let ghost a = self.m();
    //@after new_node 0
        let ghost b = self.m();
        proof { new_above(a, b, placeholder, b.data(placeholder), node); no_kid(b, a.par(node)->0, placeholder); assert(b.par(placeholder) is None); }
    //@after insert_before 0
        let ghost c = self.m();
    //@tail
        proof { blank_place(a, b, c, self.m(), self.super_root, node, placeholder); }
    //@end
    //@fn ShadowTree::insert_at_position loops=1
    //@attr pub(crate)
    //@params parent position new_node
    //@spec
        requires old(self).inv(), real(old(self).m(), old(self).super_root, parent), old(self).m().has(new_node), old(self).m().par(new_node) is None,
            new_node != old(self).super_root, !above(old(self).m(), new_node, parent), old(self).m().kids(old(self).super_root).len() < u32::MAX
        ensures final(self).super_root == old(self).super_root, final(self).inv(), // @H03 @H01
            sput(old(self).m(), final(self).m(), old(self).super_root, parent, position as int, new_node, r), // @H03 @H01
    //@start
        let ghost a = self.m();
        let ghost r0 = self.super_root;
        proof { above_self(a, parent); sfill_init(a, parent); }
    //@before insert_before 0
        proof { kid_index(a, parent, position as int); if above(a, new_node, occupant) { if new_node != occupant { above_up(a, new_node, occupant); } } }
    //@after insert_before 0
        proof {
            before_slots(a, self.m(), r0, parent, new_node, without(a.kids(parent), new_node).index_of(occupant));
            assert(self.m().par(occupant) == Some(parent));
        }
        let ghost b = self.m();
    //@after detach_to_slot 0
        proof { put_over(a, b, self.m(), r0, parent, position as int, new_node); }
    //@loop 0 head
        invariant self.inv(), self.super_root == r0, slotted(a, r0), real(a, r0, parent), a.has(new_node), a.par(new_node) is None, !above(a, new_node, parent), new_node != parent, new_node != r0,
            a.kids(parent).len() <= position, self.m().kids(parent).len() <= position, self.m().has(parent),
            sfill(a, self.m(), parent), // @H03 @H01
        decreases position - self.m().kids(parent).len()
    //@loop 0 start
        let ghost b = self.m();
    //@after new_node 0
        let ghost c = self.m();
        proof { new_above(b, c, placeholder, c.data(placeholder), parent); }
    //@loop 0 end
        proof { sfill_step(a, b, c, self.m(), r0, parent, placeholder); }
    //@before append 1
        proof {
            assert(self.m().has(new_node));
            above_same(a, self.m(), new_node, parent);
        }
        let ghost b = self.m();
    //@after append 1
        proof { put_behind(a, b, self.m(), r0, parent, position as int, new_node); }
    //@end
    //@fn ShadowTree::is_ancestor loops=1
    //@attr pub(crate)
    //@params ancestor node
    //@var current 0 node
    //@spec
        requires trees(self.m()), self.m().has(node)
        ensures r == (ancestor != node && above(self.m(), ancestor, node)), // @H03 @H01
    //@loop 0 head
        invariant_except_break trees(self.m()), self.m().has(node), self.m().has(current), ancestor != node && above(self.m(), ancestor, node) <==> ancestor != current && above(self.m(), ancestor, current), // @H03 @H01
        ensures !(ancestor != node && above(self.m(), ancestor, node)), // @H03 @H01
        decreases self.m().depth(current)
    //@loop 0 top
        proof {
            if self.m().par(current) is Some {
                let p = self.m().par(current)->0;
                assert(self.m().has(p));
                above_self(self.m(), p);
                if above(self.m(), ancestor, p) { above_down(self.m(), ancestor, current); above_depth(self.m(), ancestor, p); }
                if above(self.m(), ancestor, current) && ancestor != current { above_up(self.m(), ancestor, current); }
            } else if above(self.m(), ancestor, current) && ancestor != current { above_up(self.m(), ancestor, current); }
        }
    //@end
    //@fn ShadowTree::replace_with_placeholder sigonly
    //@params node
    //@spec
        requires false
    //@end
    //@fn ShadowTree::move_to_position loops=1
    //@attr pub(crate)
    //@params node new_parent position
    //@spec
        requires old(self).inv(), real(old(self).m(), old(self).super_root, new_parent), real(old(self).m(), old(self).super_root, node), old(self).m().par(node) is Some,
            !above(old(self).m(), node, new_parent), old(self).m().kids(old(self).super_root).len() < u32::MAX
        ensures final(self).super_root == old(self).super_root, final(self).inv(), // @H03 @H01
            smoved(old(self).m(), final(self).m(), old(self).super_root, node, new_parent, position as int, r), // @H03 @H01
    //@start
        let ghost z = self.m();
        let ghost r0 = self.super_root;
    //@before children 0
        let ghost a = self.m();
        proof {
            assert(slift(z, a, r0, node)); // @H03 @H01
            lift_end(z, a, r0, node, new_parent);
            above_self(a, new_parent);
            sfill_init(a, new_parent);
            assert forall|i: int| #![trigger a.kids(new_parent)[i]] 0 <= i < a.kids(new_parent).len() implies a.kids(new_parent)[i] != node by { kid_index(a, new_parent, i); }
        }
    //@before insert_before 0
        proof { kid_index(a, new_parent, position as int); if above(a, node, occupant) { if node != occupant { above_up(a, node, occupant); } } }
    //@after insert_before 0
        proof {
            before_slots(a, self.m(), r0, new_parent, node, without(a.kids(new_parent), node).index_of(occupant));
            assert(self.m().par(occupant) == Some(new_parent));
        }
        let ghost b = self.m();
    //@after detach_to_slot 0
        proof { put_over(a, b, self.m(), r0, new_parent, position as int, node); assert(smoved(z, self.m(), r0, node, new_parent, position as int, Some(slot))); }
    //@loop 0 head
        invariant self.inv(), self.super_root == r0, slotted(a, r0), real(a, r0, new_parent), a.has(node), a.par(node) is None, !above(a, node, new_parent), new_parent != node, node != r0,
            a.kids(new_parent).len() <= position, self.m().kids(new_parent).len() <= position, self.m().has(new_parent),
            sfill(a, self.m(), new_parent), // @H03 @H01
        decreases position - self.m().kids(new_parent).len()
    //@loop 0 start
        let ghost b = self.m();
    //@after new_node 0
        let ghost c = self.m();
        proof { new_above(b, c, placeholder, c.data(placeholder), new_parent); }
    //@loop 0 end
        proof { sfill_step(a, b, c, self.m(), r0, new_parent, placeholder); }
    //@before append 1
        proof {
            assert(self.m().has(node));
            above_same(a, self.m(), node, new_parent);
        }
        let ghost b = self.m();
    //@after append 1
        proof { put_behind(a, b, self.m(), r0, new_parent, position as int, node); assert(smoved(z, self.m(), r0, node, new_parent, position as int, None)); }
    //@end
}

// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
#[verifier::rlimit(3)]
fn must_fail_shadow_insert<'a>(t: &mut ShadowTree<'a>, parent: NodeId, position: usize, new_node: NodeId)
    requires old(t).inv(), real(old(t).m(), old(t).super_root, parent), old(t).m().has(new_node), old(t).m().par(new_node) is None,
        new_node != old(t).super_root, !above(old(t).m(), new_node, parent), old(t).m().kids(old(t).super_root).len() < u32::MAX
{
    let r = t.insert_at_position(parent, position, new_node);
    assert(false);
}
#[verifier::rlimit(3)]
fn must_fail_shadow_move<'a>(t: &mut ShadowTree<'a>, node: NodeId, parent: NodeId, position: usize)
    requires old(t).inv(), real(old(t).m(), old(t).super_root, parent), real(old(t).m(), old(t).super_root, node), old(t).m().par(node) is Some,
        !above(old(t).m(), node, parent), old(t).m().kids(old(t).super_root).len() < u32::MAX
{
    let r = t.move_to_position(node, parent, position);
    assert(false);
}
#[verifier::rlimit(3)]
fn must_fail_shadow_path<'a>(t: &ShadowTree<'a>, node: NodeId)
    requires t.inv(), real(t.m(), t.super_root, node), above(t.m(), t.super_root, node)
{
    let r = t.compute_path(node);
    assert(false);
}

} // verus!
}
