// Changing an indextree arena, as the hotmeal crate does.
// Everything marked external_body here is an ASSUMED contract on that dependency.
pub mod forest_mut {
use vstd::prelude::*;
use crate::prelude::*;
use crate::forest::*;
verus! {

/// The k-th node above `y`.
pub open spec fn up<D>(m: ForestM<D>, y: NodeId, k: nat) -> Option<NodeId>
    decreases k
{
    if k == 0 { Some(y) } else { match up(m, y, (k - 1) as nat) { Some(z) => m.par(z), None => None } }
}
/// `x` is `y` or above it.
pub open spec fn above<D>(m: ForestM<D>, x: NodeId, y: NodeId) -> bool {
    exists|k: nat| #[trigger] up(m, y, k) == Some(x)
}
pub open spec fn without(s: Seq<NodeId>, x: NodeId) -> Seq<NodeId> {
    if s.contains(x) { s.remove(s.index_of(x)) } else { s }
}
pub open spec fn created<D>(a: ForestM<D>, b: ForestM<D>, x: NodeId, d: D) -> bool {
    &&& !a.has(x)
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == (a.has(y) || y == x)
    &&& forall|y: NodeId| #![trigger b.data(y)] b.data(y) == (if y == x { d } else { a.data(y) })
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == (if y == x { None } else { a.par(y) })
    &&& forall|y: NodeId| #![trigger b.kids(y)] b.kids(y) == (if y == x { Seq::empty() } else { a.kids(y) })
}
pub open spec fn same_nodes<D>(a: ForestM<D>, b: ForestM<D>) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == a.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] b.data(y) == a.data(y)
}
pub open spec fn detached<D>(a: ForestM<D>, b: ForestM<D>, x: NodeId) -> bool {
    &&& same_nodes(a, b)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == (if y == x { None } else { a.par(y) })
    &&& forall|y: NodeId| #![trigger b.kids(y)] b.kids(y) == (if a.par(x) == Some(y) { without(a.kids(y), x) } else { a.kids(y) })
}
/// `n` leaves its place and becomes the k-th of the (other) children of `p`.
pub open spec fn inserted<D>(a: ForestM<D>, b: ForestM<D>, p: NodeId, k: int, n: NodeId) -> bool {
    &&& same_nodes(a, b)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == (if y == n { Some(p) } else { a.par(y) })
    &&& forall|y: NodeId| #![trigger b.kids(y)] b.kids(y) == (
            if y == p { without(a.kids(y), n).insert(k, n) }
            else if a.par(n) == Some(y) { without(a.kids(y), n) }
            else { a.kids(y) })
}
pub open spec fn retold<D>(a: ForestM<D>, b: ForestM<D>, x: NodeId, d: D) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == a.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] b.data(y) == (if y == x { d } else { a.data(y) })
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == a.par(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] b.kids(y) == a.kids(y)
}

impl<D> Arena<D> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures trees(r@), forall|y: NodeId| #![trigger r@.has(y)] !r@.has(y)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_node(&mut self, d: D) -> (r: NodeId)
        ensures created(old(self)@, final(self)@, r, d), trees(old(self)@) ==> trees(final(self)@)
    { unimplemented!() }
    /// `arena[id].get_mut()`
    #[verifier::external_body]
    pub fn data_mut<'a>(&'a mut self, id: NodeId) -> (r: &'a mut D)
        requires old(self)@.has(id)
        ensures *r == old(self)@.data(id), retold(old(self)@, final(self)@, id, *final(r)), trees(old(self)@) ==> trees(final(self)@)
    { unimplemented!() }
}
impl<D> Arena<D> {
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, id: NodeId) -> (r: Option<&'a mut Node<D>>)
        requires old(self)@.has(id)
        ensures match r {
            Some(v) => v.s_get() == old(self)@.data(id) && retold(old(self)@, final(self)@, id, final(v).s_get()) && (trees(old(self)@) ==> trees(final(self)@)),
            None => false,
        }
    { unimplemented!() }
}
impl NodeId {
    #[verifier::external_body]
    pub fn detach<D>(self, arena: &mut Arena<D>)
        requires old(arena)@.has(self)
        ensures detached(old(arena)@, final(arena)@, self), trees(old(arena)@) ==> trees(final(arena)@)
    { unimplemented!() }
    /// panics when `n` is `self` or above it
    #[verifier::external_body]
    pub fn append<D>(self, n: NodeId, arena: &mut Arena<D>)
        requires old(arena)@.has(self), old(arena)@.has(n), !above(old(arena)@, n, self)
        ensures inserted(old(arena)@, final(arena)@, self, without(old(arena)@.kids(self), n).len() as int, n),
            trees(old(arena)@) ==> trees(final(arena)@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn prepend<D>(self, n: NodeId, arena: &mut Arena<D>)
        requires old(arena)@.has(self), old(arena)@.has(n), !above(old(arena)@, n, self)
        ensures inserted(old(arena)@, final(arena)@, self, 0, n), trees(old(arena)@) ==> trees(final(arena)@)
    { unimplemented!() }
    /// makes a cycle when `n` is above `self`, panics when it is `self`
    #[verifier::external_body]
    pub fn insert_before<D>(self, n: NodeId, arena: &mut Arena<D>)
        requires old(arena)@.has(self), old(arena)@.has(n), !above(old(arena)@, n, self)
        ensures
            old(arena)@.par(self) is Some ==> inserted(old(arena)@, final(arena)@, old(arena)@.par(self)->0,
                without(old(arena)@.kids(old(arena)@.par(self)->0), n).index_of(self), n),
            old(arena)@.par(self) is None ==> detached(old(arena)@, final(arena)@, n),
            trees(old(arena)@) ==> trees(final(arena)@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert_after<D>(self, n: NodeId, arena: &mut Arena<D>)
        requires old(arena)@.has(self), old(arena)@.has(n), !above(old(arena)@, n, self)
        ensures
            old(arena)@.par(self) is Some ==> inserted(old(arena)@, final(arena)@, old(arena)@.par(self)->0,
                without(old(arena)@.kids(old(arena)@.par(self)->0), n).index_of(self) + 1, n),
            old(arena)@.par(self) is None ==> detached(old(arena)@, final(arena)@, n),
            trees(old(arena)@) ==> trees(final(arena)@)
    { unimplemented!() }
}

// ---------------------------------------------------------------- lemmas
pub proof fn up_in<D>(m: ForestM<D>, y: NodeId, k: nat)
    requires trees(m), m.has(y)
    ensures up(m, y, k) is Some ==> m.has(up(m, y, k)->0)
    decreases k
{
    if k > 0 { up_in(m, y, (k - 1) as nat); }
}
/// Nothing above `y` depends on nodes that were not there, if no node that was there got another parent (except `n`).
pub proof fn up_same<D>(a: ForestM<D>, b: ForestM<D>, y: NodeId, k: nat)
    requires trees(a), a.has(y), forall|z: NodeId| #![trigger b.par(z)] a.has(z) ==> b.par(z) == a.par(z)
    ensures up(b, y, k) == up(a, y, k)
    decreases k
{
    if k > 0 { up_same(a, b, y, (k - 1) as nat); up_in(a, y, (k - 1) as nat); }
}
pub proof fn above_same<D>(a: ForestM<D>, b: ForestM<D>, x: NodeId, y: NodeId)
    requires trees(a), a.has(y), forall|z: NodeId| #![trigger b.par(z)] a.has(z) ==> b.par(z) == a.par(z)
    ensures above(b, x, y) == above(a, x, y)
{
    if above(b, x, y) { let k = choose|k: nat| #[trigger] up(b, y, k) == Some(x); up_same(a, b, y, k); assert(up(a, y, k) == Some(x)); }
    if above(a, x, y) { let k = choose|k: nat| #[trigger] up(a, y, k) == Some(x); up_same(a, b, y, k); assert(up(b, y, k) == Some(x)); }
}
/// A node that is not there is above nothing.
pub proof fn above_has<D>(m: ForestM<D>, x: NodeId, y: NodeId)
    requires trees(m), m.has(y), above(m, x, y)
    ensures m.has(x)
{
    let k = choose|k: nat| #[trigger] up(m, y, k) == Some(x);
    up_in(m, y, k);
}
/// Fewer parents above: nothing new is above.
pub proof fn above_less<D>(a: ForestM<D>, b: ForestM<D>, x: NodeId, y: NodeId)
    requires trees(a), a.has(y), forall|z: NodeId| #![trigger b.par(z)] a.has(z) ==> b.par(z) == a.par(z) || b.par(z) is None, above(b, x, y)
    ensures above(a, x, y)
{
    let k = choose|k: nat| #[trigger] up(b, y, k) == Some(x);
    up_less(a, b, y, k);
    assert(up(a, y, k) == Some(x));
}
pub proof fn up_less<D>(a: ForestM<D>, b: ForestM<D>, y: NodeId, k: nat)
    requires trees(a), a.has(y), forall|z: NodeId| #![trigger b.par(z)] a.has(z) ==> b.par(z) == a.par(z) || b.par(z) is None, up(b, y, k) is Some
    ensures up(a, y, k) == up(b, y, k)
    decreases k
{
    if k > 0 { up_less(a, b, y, (k - 1) as nat); up_in(a, y, (k - 1) as nat); }
}
pub proof fn no_kid<D>(m: ForestM<D>, p: NodeId, x: NodeId)
    requires trees(m), m.has(p), m.par(x) != Some(p)
    ensures !m.kids(p).contains(x), without(m.kids(p), x) == m.kids(p)
{
    if m.kids(p).contains(x) { let i = choose|i: int| 0 <= i < m.kids(p).len() && m.kids(p)[i] == x; assert(m.par(m.kids(p)[i]) == Some(p)); }
}
pub proof fn kid_index<D>(m: ForestM<D>, p: NodeId, i: int)
    requires trees(m), m.has(p), 0 <= i < m.kids(p).len()
    ensures m.kids(p).contains(m.kids(p)[i]), m.kids(p).index_of(m.kids(p)[i]) == i, m.has(m.kids(p)[i]), m.par(m.kids(p)[i]) == Some(p),
        without(m.kids(p), m.kids(p)[i]) == m.kids(p).remove(i)
{
    let s = m.kids(p);
    assert(s.no_duplicates());
    assert(s.contains(s[i]));
    let j = s.index_of(s[i]);
    assert(0 <= j < s.len() && s[j] == s[i]);
}
/// Above a child: the child, and what is above its parent.
pub proof fn above_kid<D>(m: ForestM<D>, x: NodeId, y: NodeId)
    requires above(m, x, y), x != y, m.par(y) is Some
    ensures above(m, x, m.par(y)->0)
{
    let k = choose|k: nat| #[trigger] up(m, y, k) == Some(x);
    assert(k > 0);
    up_shift(m, y, (k - 1) as nat);
    assert(up(m, m.par(y)->0, (k - 1) as nat) == Some(x));
}
pub proof fn up_shift<D>(m: ForestM<D>, y: NodeId, k: nat)
    requires m.par(y) is Some
    ensures up(m, y, k + 1) == up(m, m.par(y)->0, k)
    decreases k
{
    if k > 0 { up_shift(m, y, (k - 1) as nat); assert(up(m, y, k + 1) == match up(m, y, k) { Some(z) => m.par(z), None => None }); }
    else { assert(up(m, y, 1) == m.par(y)) by { assert(up(m, y, 0) == Some(y)); } }
}
pub proof fn above_self<D>(m: ForestM<D>, x: NodeId)
    ensures above(m, x, x)
{ assert(up(m, x, 0) == Some(x)); }
/// A node just made is above nothing that was there.
pub proof fn new_above<D>(a: ForestM<D>, b: ForestM<D>, x: NodeId, d: D, y: NodeId)
    requires trees(a), a.has(y), created(a, b, x, d)
    ensures !above(b, x, y)
{
    above_same(a, b, x, y);
    if above(b, x, y) { above_has(a, x, y); }
}

} // verus!
}
