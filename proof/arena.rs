// indextree: the arena, described by what it holds. Everything marked external_body here is an
// ASSUMED contract on that dependency.
pub mod arena {
use vstd::prelude::*;
use crate::prelude::*;
verus! {

/// The nodes in creation order, and for each its data, parent and ordered children.
pub ghost struct ArenaM<D> {
    pub ids: Seq<NodeId>,
    pub data: spec_fn(NodeId) -> D,
    pub par: spec_fn(NodeId) -> Option<NodeId>,
    pub kids: spec_fn(NodeId) -> Seq<NodeId>,
}
impl<D> ArenaM<D> {
    pub open spec fn has(self, x: NodeId) -> bool { 0 <= x.ix() < self.ids.len() && self.ids[x.ix()] == x }
    pub open spec fn has_new(self, x: NodeId, d: D) -> ArenaM<D> {
        ArenaM {
            ids: self.ids.push(x),
            data: |y: NodeId| if y == x { d } else { (self.data)(y) },
            par: |y: NodeId| if y == x { None } else { (self.par)(y) },
            kids: |y: NodeId| if y == x { Seq::empty() } else { (self.kids)(y) },
        }
    }
    pub open spec fn hung(self, p: NodeId, c: NodeId, s: Seq<NodeId>) -> ArenaM<D> {
        ArenaM {
            ids: self.ids,
            data: self.data,
            par: |y: NodeId| if y == c { Some(p) } else { (self.par)(y) },
            kids: |y: NodeId| if y == p { s } else { (self.kids)(y) },
        }
    }
}
/// Created parents first, and parent and children lists agree.
pub open spec fn forest<D>(m: ArenaM<D>) -> bool {
    &&& forall|i: int| #![trigger m.ids[i]] 0 <= i < m.ids.len() ==> m.ids[i].ix() == i
    &&& forall|x: NodeId| #![trigger (m.par)(x)] m.has(x) && (m.par)(x) is Some ==>
            m.has((m.par)(x)->0) && (m.kids)((m.par)(x)->0).contains(x) && (m.par)(x)->0.ix() < x.ix()
    &&& forall|p: NodeId, i: int| #![trigger (m.kids)(p)[i]] m.has(p) && 0 <= i < (m.kids)(p).len() ==>
            m.has((m.kids)(p)[i]) && (m.par)((m.kids)(p)[i]) == Some(p)
    &&& forall|p: NodeId| #![trigger (m.kids)(p)] m.has(p) ==> (m.kids)(p).no_duplicates()
}
/// Pre-order: the node, then the subtrees of its children in order.
pub open spec fn pre<D>(m: ArenaM<D>, x: NodeId) -> Seq<NodeId>
    decreases m.ids.len() - x.ix(), (m.kids)(x).len() + 1
{
    seq![x] + pres(m, x, (m.kids)(x).len())
}
pub open spec fn pres<D>(m: ArenaM<D>, x: NodeId, n: nat) -> Seq<NodeId>
    decreases m.ids.len() - x.ix(), n
{
    if n == 0 { Seq::empty() } else {
        let k = (m.kids)(x)[n - 1];
        pres(m, x, (n - 1) as nat) + (if x.ix() < k.ix() < m.ids.len() { pre(m, k) } else { Seq::empty() })
    }
}
/// Post-order: the subtrees of the children in order, then the node.
pub open spec fn post<D>(m: ArenaM<D>, x: NodeId) -> Seq<NodeId>
    decreases m.ids.len() - x.ix(), (m.kids)(x).len() + 1
{
    posts(m, x, (m.kids)(x).len()).push(x)
}
pub open spec fn posts<D>(m: ArenaM<D>, x: NodeId, n: nat) -> Seq<NodeId>
    decreases m.ids.len() - x.ix(), n
{
    if n == 0 { Seq::empty() } else {
        let k = (m.kids)(x)[n - 1];
        posts(m, x, (n - 1) as nat) + (if x.ix() < k.ix() < m.ids.len() { post(m, k) } else { Seq::empty() })
    }
}
/// Distance to the furthest leaf.
pub open spec fn tall<D>(m: ArenaM<D>, x: NodeId) -> nat
    decreases m.ids.len() - x.ix(), (m.kids)(x).len() + 1
{
    talls(m, x, (m.kids)(x).len())
}
pub open spec fn talls<D>(m: ArenaM<D>, x: NodeId, n: nat) -> nat
    decreases m.ids.len() - x.ix(), n
{
    if n == 0 { 0 } else {
        let k = (m.kids)(x)[n - 1];
        let h = if x.ix() < k.ix() < m.ids.len() { 1 + tall(m, k) } else { 0 };
        let g = talls(m, x, (n - 1) as nat);
        if h > g { h } else { g }
    }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Arena<D> { p: core::marker::PhantomData<D> }
impl<D> View for Arena<D> {
    type V = ArenaM<D>;
    uninterp spec fn view(&self) -> ArenaM<D>;
}
impl<D> Arena<D> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.ids.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@.ids.len() == 0 { unimplemented!() }
    /// (A node occupies more than two bytes, so their count stays below usize::MAX / 2.)
    #[verifier::external_body]
    pub fn new_node(&mut self, data: D) -> (r: NodeId)
        ensures !old(self)@.has(r), r.ix() == old(self)@.ids.len(), final(self)@ == old(self)@.has_new(r, data),
            final(self)@.ids.len() < usize::MAX / 2,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, id: NodeId) -> (r: Option<&'a Node<D>>)
        ensures self@.has(id) ==> r is Some && r->0.m() == self@ && r->0.id() == id
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(&self) -> (r: usize) ensures r == self@.ids.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.ids.len() == 0) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Node<D> { p: core::marker::PhantomData<D> }
impl<D> Node<D> {
    pub uninterp spec fn m(&self) -> ArenaM<D>;
    pub uninterp spec fn id(&self) -> NodeId;
    #[verifier::external_body]
    pub fn get(&self) -> (r: &D) ensures *r == (self.m().data)(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<NodeId>) ensures r == (self.m().par)(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn first_child(&self) -> (r: Option<NodeId>)
        ensures ({ let s = (self.m().kids)(self.id()); r == (if s.len() > 0 { Some(s[0]) } else { None }) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last_child(&self) -> (r: Option<NodeId>)
        ensures ({ let s = (self.m().kids)(self.id()); r == (if s.len() > 0 { Some(s.last()) } else { None }) })
    { unimplemented!() }
}
impl NodeId {
    #[verifier::external_body]
    pub fn children<D>(self, arena: &Arena<D>) -> (r: Sq<NodeId>)
        requires arena@.has(self) ensures r@ == (arena@.kids)(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reverse_children<D>(self, arena: &Arena<D>) -> (r: Sq<NodeId>)
        requires arena@.has(self) ensures r@ == (arena@.kids)(self).reverse()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn descendants<D>(self, arena: &Arena<D>) -> (r: Sq<NodeId>)
        requires arena@.has(self), forest(arena@) ensures r@ == pre(arena@, self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append<D>(self, child: NodeId, arena: &mut Arena<D>)
        requires old(arena)@.has(self), old(arena)@.has(child), self != child,
            (old(arena)@.par)(child) is None, (old(arena)@.kids)(child).len() == 0,
        ensures final(arena)@ == old(arena)@.hung(self, child, (old(arena)@.kids)(self).push(child))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn prepend<D>(self, child: NodeId, arena: &mut Arena<D>)
        requires old(arena)@.has(self), old(arena)@.has(child), self != child,
            (old(arena)@.par)(child) is None, (old(arena)@.kids)(child).len() == 0,
        ensures final(arena)@ == old(arena)@.hung(self, child, seq![child] + (old(arena)@.kids)(self))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn append_value<D>(self, data: D, arena: &mut Arena<D>) -> (r: NodeId)
        requires old(arena)@.has(self)
        ensures !old(arena)@.has(r), r.ix() == old(arena)@.ids.len(), final(arena)@.ids.len() < usize::MAX / 2,
            final(arena)@ == old(arena)@.has_new(r, data).hung(self, r, (old(arena)@.kids)(self).push(r)),
    { unimplemented!() }
}

// ---------------------------------------------------------------- facts about the model
/// `x` is `y` or above it.
pub open spec fn over<D>(m: ArenaM<D>, x: NodeId, y: NodeId) -> bool
    decreases y.ix()
{
    x == y || match (m.par)(y) { Some(p) => 0 <= p.ix() < y.ix() && over(m, x, p), None => false }
}
pub proof fn over_ix<D>(m: ArenaM<D>, x: NodeId, y: NodeId)
    requires forest(m), m.has(y), over(m, x, y)
    ensures m.has(x), x.ix() <= y.ix(), x != y ==> x.ix() < y.ix()
    decreases y.ix()
{
    if x != y { over_ix(m, x, (m.par)(y)->0); }
}
/// Below x: x itself or below one of its children.
pub proof fn over_child<D>(m: ArenaM<D>, x: NodeId, y: NodeId) -> (j: int)
    requires forest(m), m.has(y), over(m, x, y), x != y
    ensures 0 <= j < (m.kids)(x).len(), over(m, (m.kids)(x)[j], y)
    decreases y.ix()
{
    let p = (m.par)(y)->0;
    if p == x {
        let j = choose|j: int| 0 <= j < (m.kids)(x).len() && #[trigger] (m.kids)(x)[j] == y;
        assert((m.kids)(x)[j] == y);
        j
    } else {
        over_child(m, x, p)
    }
}
pub proof fn over_up<D>(m: ArenaM<D>, k: NodeId, y: NodeId)
    requires forest(m), m.has(y), over(m, k, y), (m.par)(k) is Some
    ensures over(m, (m.par)(k)->0, y)
    decreases y.ix()
{
    over_ix(m, k, y);
    let x = (m.par)(k)->0;
    if k == y {
        assert(over(m, x, x));
    } else {
        over_up(m, k, (m.par)(y)->0);
    }
}
/// Siblings have nothing below them in common.
pub proof fn apart<D>(m: ArenaM<D>, j: NodeId, k: NodeId, y: NodeId)
    requires forest(m), m.has(y), over(m, j, y), over(m, k, y), (m.par)(j) is Some, (m.par)(j) == (m.par)(k)
    ensures j == k
    decreases y.ix()
{
    over_ix(m, j, y);
    over_ix(m, k, y);
    if j != k {
        if j == y { over_ix(m, k, (m.par)(y)->0); }
        else if k == y { over_ix(m, j, (m.par)(y)->0); }
        else { apart(m, j, k, (m.par)(y)->0); }
    }
}
/// What the first n subtrees below x contain.
pub open spec fn part<D>(m: ArenaM<D>, x: NodeId, n: nat, y: NodeId) -> bool {
    m.has(y) && exists|j: int| 0 <= j < n && over(m, #[trigger] (m.kids)(x)[j], y)
}
pub proof fn post_holds<D>(m: ArenaM<D>, x: NodeId)
    requires forest(m), m.has(x)
    ensures post(m, x).no_duplicates(), forall|y: NodeId| #[trigger] post(m, x).contains(y) <==> m.has(y) && over(m, x, y)
    decreases m.ids.len() - x.ix(), (m.kids)(x).len() + 1
{
    let n = (m.kids)(x).len();
    posts_hold(m, x, n);
    let s = posts(m, x, n);
    let r = post(m, x);
    assert(r == s.push(x));
    assert forall|y: NodeId| #[trigger] r.contains(y) <==> m.has(y) && over(m, x, y) by {
        if r.contains(y) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
            if i < s.len() {
                assert(s[i] == y);
                assert(s.contains(y));
                let j = choose|j: int| 0 <= j < n && over(m, #[trigger] (m.kids)(x)[j], y);
                over_up(m, (m.kids)(x)[j], y);
            }
        }
        if m.has(y) && over(m, x, y) {
            if x == y { assert(r[s.len() as int] == y); } else {
                let j = over_child(m, x, y);
                assert(part(m, x, n, y));
                assert(s.contains(y));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                assert(r[i] == y);
            }
        }
    }
    assert(!s.contains(x)) by {
        if s.contains(x) {
            let j = choose|j: int| 0 <= j < n && over(m, #[trigger] (m.kids)(x)[j], x);
            over_ix(m, (m.kids)(x)[j], x);
        }
    }
    assert(r.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
            if a < s.len() && b < s.len() { assert(s[a] != s[b]); }
            else if a < s.len() { assert(s.contains(s[a])); }
            else if b < s.len() { assert(s.contains(s[b])); }
        }
    }
}
pub proof fn posts_hold<D>(m: ArenaM<D>, x: NodeId, n: nat)
    requires forest(m), m.has(x), n <= (m.kids)(x).len()
    ensures posts(m, x, n).no_duplicates(), forall|y: NodeId| #[trigger] posts(m, x, n).contains(y) <==> part(m, x, n, y)
    decreases m.ids.len() - x.ix(), n
{
    if n > 0 {
        let k = (m.kids)(x)[n - 1];
        assert((m.par)(k) == Some(x));
        posts_hold(m, x, (n - 1) as nat);
        post_holds(m, k);
        let s = posts(m, x, (n - 1) as nat);
        let u = post(m, k);
        two_parts(m, x, n, s, u);
        assert(posts(m, x, n) == s + u);
    }
}
/// One more subtree joins the first n-1.
proof fn two_parts<D>(m: ArenaM<D>, x: NodeId, n: nat, s: Seq<NodeId>, u: Seq<NodeId>)
    requires forest(m), m.has(x), 0 < n <= (m.kids)(x).len(), s.no_duplicates(), u.no_duplicates(),
        forall|y: NodeId| #[trigger] s.contains(y) <==> part(m, x, (n - 1) as nat, y),
        forall|y: NodeId| #[trigger] u.contains(y) <==> m.has(y) && over(m, (m.kids)(x)[n - 1], y),
    ensures (s + u).no_duplicates(), forall|y: NodeId| #[trigger] (s + u).contains(y) <==> part(m, x, n, y)
{
    let r = s + u;
    let k = (m.kids)(x)[n - 1];
    assert forall|y: NodeId| #[trigger] r.contains(y) <==> part(m, x, n, y) by {
        if r.contains(y) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
            if i < s.len() {
                assert(s[i] == y);
                assert(s.contains(y));
                assert(part(m, x, (n - 1) as nat, y));
            } else {
                assert(u[i - s.len()] == y);
                assert(u.contains(y));
            }
        }
        if part(m, x, n, y) {
            let j = choose|j: int| 0 <= j < n && over(m, #[trigger] (m.kids)(x)[j], y);
            if j < n - 1 {
                assert(part(m, x, (n - 1) as nat, y));
                assert(s.contains(y));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                assert(r[i] == y);
            } else {
                assert(u.contains(y));
                let i = choose|i: int| 0 <= i < u.len() && u[i] == y;
                assert(r[s.len() + i] == y);
            }
        }
    }
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < u.len() implies s[a] != u[b] by {
        let y = u[b];
        if s[a] == y {
            assert(s.contains(y));
            assert(u.contains(y));
            let j = choose|j: int| 0 <= j < n - 1 && over(m, #[trigger] (m.kids)(x)[j], y);
            apart(m, (m.kids)(x)[j], k, y);
        }
    }
    assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
        if a < s.len() && b < s.len() { assert(s[a] != s[b]); }
        else if a < s.len() { assert(s[a] != u[b - s.len()]); }
        else if b < s.len() { assert(s[b] != u[a - s.len()]); }
        else { assert(u[a - s.len()] != u[b - s.len()]); }
    }
}
pub proof fn pre_holds<D>(m: ArenaM<D>, x: NodeId)
    requires forest(m), m.has(x)
    ensures pre(m, x).no_duplicates(), forall|y: NodeId| #[trigger] pre(m, x).contains(y) <==> m.has(y) && over(m, x, y)
    decreases m.ids.len() - x.ix(), (m.kids)(x).len() + 1
{
    let n = (m.kids)(x).len();
    pres_hold(m, x, n);
    let s = pres(m, x, n);
    let r = pre(m, x);
    assert(r == seq![x] + s);
    assert forall|y: NodeId| #[trigger] r.contains(y) <==> m.has(y) && over(m, x, y) by {
        if r.contains(y) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
            if i > 0 {
                assert(s[i - 1] == y);
                assert(s.contains(y));
                let j = choose|j: int| 0 <= j < n && over(m, #[trigger] (m.kids)(x)[j], y);
                over_up(m, (m.kids)(x)[j], y);
            }
        }
        if m.has(y) && over(m, x, y) {
            if x == y { assert(r[0] == y); } else {
                let j = over_child(m, x, y);
                assert(part(m, x, n, y));
                assert(s.contains(y));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                assert(r[i + 1] == y);
            }
        }
    }
    assert(!s.contains(x)) by {
        if s.contains(x) {
            let j = choose|j: int| 0 <= j < n && over(m, #[trigger] (m.kids)(x)[j], x);
            over_ix(m, (m.kids)(x)[j], x);
        }
    }
    assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
        if a > 0 && b > 0 { assert(s[a - 1] != s[b - 1]); }
        else if a > 0 { assert(s.contains(s[a - 1])); }
        else if b > 0 { assert(s.contains(s[b - 1])); }
    }
}
pub proof fn pres_hold<D>(m: ArenaM<D>, x: NodeId, n: nat)
    requires forest(m), m.has(x), n <= (m.kids)(x).len()
    ensures pres(m, x, n).no_duplicates(), forall|y: NodeId| #[trigger] pres(m, x, n).contains(y) <==> part(m, x, n, y)
    decreases m.ids.len() - x.ix(), n
{
    if n > 0 {
        let k = (m.kids)(x)[n - 1];
        assert((m.par)(k) == Some(x));
        pres_hold(m, x, (n - 1) as nat);
        pre_holds(m, k);
        let s = pres(m, x, (n - 1) as nat);
        let u = pre(m, k);
        two_parts(m, x, n, s, u);
        assert(pres(m, x, n) == s + u);
    }
}
/// y and z have the same parent and y comes first.
pub open spec fn sib_before<D>(m: ArenaM<D>, y: NodeId, z: NodeId) -> bool {
    exists|p: NodeId, a: int, b: int| m.has(p) && 0 <= a < b < (m.kids)(p).len() && #[trigger] (m.kids)(p)[a] == y && #[trigger] (m.kids)(p)[b] == z
}
/// Nodes of an earlier subtree are neither parents, children nor later siblings of nodes of a later one.
proof fn cross<D>(m: ArenaM<D>, x: NodeId, c: int, n: int, y: NodeId, z: NodeId)
    requires forest(m), m.has(x), 0 <= c < n < (m.kids)(x).len(), m.has(y), m.has(z),
        over(m, (m.kids)(x)[c], y), over(m, (m.kids)(x)[n], z)
    ensures (m.par)(z) != Some(y), (m.par)(y) != Some(z), !sib_before(m, z, y), y != z
{
    let j = (m.kids)(x)[c];
    let k = (m.kids)(x)[n];
    assert((m.par)(j) == Some(x) && (m.par)(k) == Some(x));
    assert(j != k);
    over_ix(m, j, y);
    over_ix(m, k, z);
    if (m.par)(z) == Some(y) {
        assert(over(m, j, z)) by { if z == k { over_ix(m, j, x); } }
        apart(m, j, k, z);
    }
    if (m.par)(y) == Some(z) {
        assert(over(m, k, y));
        apart(m, j, k, y);
    }
    if y == z { apart(m, j, k, y); }
    if sib_before(m, z, y) {
        let (p, a, b) = choose|p: NodeId, a: int, b: int| m.has(p) && 0 <= a < b < (m.kids)(p).len() && #[trigger] (m.kids)(p)[a] == z && #[trigger] (m.kids)(p)[b] == y;
        assert((m.par)((m.kids)(p)[a]) == Some(p));
        assert((m.par)((m.kids)(p)[b]) == Some(p));
        if p == x {
            apart_self(m, k, z);
            apart_self(m, j, y);
            assert((m.kids)(x)[a] == (m.kids)(x)[n]);
            assert((m.kids)(x)[b] == (m.kids)(x)[c]);
        } else {
            assert(over(m, k, p));
            assert(over(m, j, p));
            over_ix(m, k, p);
            apart(m, j, k, p);
        }
    }
}
/// A sibling below a sibling is that sibling.
proof fn apart_self<D>(m: ArenaM<D>, k: NodeId, z: NodeId)
    requires forest(m), m.has(z), over(m, k, z), (m.par)(k) is Some, (m.par)(z) == (m.par)(k)
    ensures k == z
{
    assert(over(m, z, z));
    apart(m, k, z, z);
}
/// Pre-order: parents first, earlier siblings first.
pub open spec fn pre_sorted<D>(m: ArenaM<D>, s: Seq<NodeId>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && ((m.par)(s[j]) == Some(s[i]) || sib_before(m, s[i], s[j])) ==> i < j
}
/// Post-order: children first, earlier siblings first.
pub open spec fn post_sorted<D>(m: ArenaM<D>, s: Seq<NodeId>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && ((m.par)(s[i]) == Some(s[j]) || sib_before(m, s[i], s[j])) ==> i < j
}
pub proof fn pre_order<D>(m: ArenaM<D>, x: NodeId)
    requires forest(m), m.has(x)
    ensures pre_sorted(m, pre(m, x))
    decreases m.ids.len() - x.ix(), (m.kids)(x).len() + 1
{
    let n = (m.kids)(x).len();
    pres_order(m, x, n);
    pres_hold(m, x, n);
    let s = pres(m, x, n);
    let r = pre(m, x);
    assert(r == seq![x] + s);
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && ((m.par)(r[j]) == Some(r[i]) || sib_before(m, r[i], r[j])) implies i < j by {
        if i > 0 { assert(s.contains(s[i - 1])); let c = choose|c: int| 0 <= c < n && over(m, #[trigger] (m.kids)(x)[c], s[i - 1]); over_ix(m, (m.kids)(x)[c], s[i - 1]); under(m, x, c); over_up(m, (m.kids)(x)[c], s[i - 1]); }
        if j > 0 { assert(s.contains(s[j - 1])); let c = choose|c: int| 0 <= c < n && over(m, #[trigger] (m.kids)(x)[c], s[j - 1]); over_ix(m, (m.kids)(x)[c], s[j - 1]); under(m, x, c); }
        if i == 0 && j == 0 { not_own(m, x); }
        if i > 0 && j > 0 { assert(r[i] == s[i - 1] && r[j] == s[j - 1]); }
        if i > 0 && j == 0 { no_sib(m, r[i], x); }
    }
}
proof fn under<D>(m: ArenaM<D>, x: NodeId, c: int)
    requires forest(m), m.has(x), 0 <= c < (m.kids)(x).len()
    ensures (m.par)((m.kids)(x)[c]) == Some(x), x.ix() < (m.kids)(x)[c].ix()
{
    assert(m.has((m.kids)(x)[c]));
}
proof fn not_own<D>(m: ArenaM<D>, x: NodeId)
    requires forest(m), m.has(x)
    ensures (m.par)(x) != Some(x), !sib_before(m, x, x)
{
    if sib_before(m, x, x) {
        let (p, a, b) = choose|p: NodeId, a: int, b: int| m.has(p) && 0 <= a < b < (m.kids)(p).len() && #[trigger] (m.kids)(p)[a] == x && #[trigger] (m.kids)(p)[b] == x;
        assert((m.kids)(p)[a] != (m.kids)(p)[b]);
    }
}
proof fn no_sib<D>(m: ArenaM<D>, y: NodeId, x: NodeId)
    requires forest(m), m.has(x), m.has(y), over(m, x, y), x != y
    ensures !sib_before(m, y, x), !sib_before(m, x, y)
{
    if sib_before(m, y, x) || sib_before(m, x, y) {
        let (p, a, b) = choose|p: NodeId, a: int, b: int| m.has(p) && 0 <= a < (m.kids)(p).len() && 0 <= b < (m.kids)(p).len() && #[trigger] (m.kids)(p)[a] == y && #[trigger] (m.kids)(p)[b] == x;
        assert((m.par)((m.kids)(p)[a]) == Some(p));
        assert((m.par)((m.kids)(p)[b]) == Some(p));
        apart_self(m, x, y);
    }
}
pub proof fn pres_order<D>(m: ArenaM<D>, x: NodeId, n: nat)
    requires forest(m), m.has(x), n <= (m.kids)(x).len()
    ensures pre_sorted(m, pres(m, x, n))
    decreases m.ids.len() - x.ix(), n
{
    if n > 0 {
        let k = (m.kids)(x)[n - 1];
        under(m, x, n - 1);
        pres_order(m, x, (n - 1) as nat);
        pre_order(m, k);
        pres_hold(m, x, (n - 1) as nat);
        pre_holds(m, k);
        let s = pres(m, x, (n - 1) as nat);
        let u = pre(m, k);
        let r = pres(m, x, n);
        assert(r == s + u);
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && ((m.par)(r[j]) == Some(r[i]) || sib_before(m, r[i], r[j])) implies i < j by {
            crossing(m, x, n, s, u, i, j);
        }
    }
}
proof fn crossing<D>(m: ArenaM<D>, x: NodeId, n: nat, s: Seq<NodeId>, u: Seq<NodeId>, i: int, j: int)
    requires forest(m), m.has(x), 0 < n <= (m.kids)(x).len(),
        forall|y: NodeId| #[trigger] s.contains(y) <==> part(m, x, (n - 1) as nat, y),
        forall|y: NodeId| #[trigger] u.contains(y) <==> m.has(y) && over(m, (m.kids)(x)[n - 1], y),
        0 <= i < (s + u).len(), 0 <= j < (s + u).len(),
    ensures
        i >= s.len() && j < s.len() ==> (m.par)((s + u)[i]) != Some((s + u)[j]) && (m.par)((s + u)[j]) != Some((s + u)[i]) && !sib_before(m, (s + u)[i], (s + u)[j]),
        i < s.len() ==> (s + u)[i] == s[i], j < s.len() ==> (s + u)[j] == s[j],
        i >= s.len() ==> (s + u)[i] == u[i - s.len()], j >= s.len() ==> (s + u)[j] == u[j - s.len()],
{
    if i >= s.len() && j < s.len() {
        let y = s[j];
        let z = u[i - s.len()];
        assert(s.contains(y));
        assert(u.contains(z));
        let c = choose|c: int| 0 <= c < n - 1 && over(m, #[trigger] (m.kids)(x)[c], y);
        cross(m, x, c, n - 1, y, z);
    }
}
pub proof fn post_order<D>(m: ArenaM<D>, x: NodeId)
    requires forest(m), m.has(x)
    ensures post_sorted(m, post(m, x))
    decreases m.ids.len() - x.ix(), (m.kids)(x).len() + 1
{
    let n = (m.kids)(x).len();
    posts_order(m, x, n);
    posts_hold(m, x, n);
    let s = posts(m, x, n);
    let r = post(m, x);
    assert(r == s.push(x));
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && ((m.par)(r[i]) == Some(r[j]) || sib_before(m, r[i], r[j])) implies i < j by {
        if i < s.len() { assert(s.contains(s[i])); let c = choose|c: int| 0 <= c < n && over(m, #[trigger] (m.kids)(x)[c], s[i]); over_ix(m, (m.kids)(x)[c], s[i]); under(m, x, c); }
        if j < s.len() { assert(s.contains(s[j])); let c = choose|c: int| 0 <= c < n && over(m, #[trigger] (m.kids)(x)[c], s[j]); over_ix(m, (m.kids)(x)[c], s[j]); under(m, x, c); over_up(m, (m.kids)(x)[c], s[j]); }
        if i == s.len() && j == s.len() { not_own(m, x); }
        if i < s.len() && j < s.len() { assert(r[i] == s[i] && r[j] == s[j]); }
        if i == s.len() && j < s.len() { no_sib(m, r[j], x); }
    }
}
pub proof fn posts_order<D>(m: ArenaM<D>, x: NodeId, n: nat)
    requires forest(m), m.has(x), n <= (m.kids)(x).len()
    ensures post_sorted(m, posts(m, x, n))
    decreases m.ids.len() - x.ix(), n
{
    if n > 0 {
        let k = (m.kids)(x)[n - 1];
        under(m, x, n - 1);
        posts_order(m, x, (n - 1) as nat);
        post_order(m, k);
        posts_hold(m, x, (n - 1) as nat);
        post_holds(m, k);
        let s = posts(m, x, (n - 1) as nat);
        let u = post(m, k);
        let r = posts(m, x, n);
        assert(r == s + u);
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && ((m.par)(r[i]) == Some(r[j]) || sib_before(m, r[i], r[j])) implies i < j by {
            crossing(m, x, n, s, u, i, j);
        }
    }
}
/// Heights fit.
pub proof fn tall_fits<D>(m: ArenaM<D>, x: NodeId)
    requires forest(m), m.has(x)
    ensures tall(m, x) + x.ix() < m.ids.len(), tall(m, x) == 0 <==> (m.kids)(x).len() == 0
    decreases m.ids.len() - x.ix(), (m.kids)(x).len() + 1
{
    talls_fit(m, x, (m.kids)(x).len());
}
pub proof fn talls_fit<D>(m: ArenaM<D>, x: NodeId, n: nat)
    requires forest(m), m.has(x), n <= (m.kids)(x).len()
    ensures talls(m, x, n) + x.ix() < m.ids.len(), talls(m, x, n) == 0 <==> n == 0,
        forall|j: int| 0 <= j < n ==> tall(m, #[trigger] (m.kids)(x)[j]) < talls(m, x, n),
        n > 0 ==> exists|j: int| 0 <= j < n && 1 + tall(m, #[trigger] (m.kids)(x)[j]) == talls(m, x, n),
    decreases m.ids.len() - x.ix(), n
{
    if n > 0 {
        let k = (m.kids)(x)[n - 1];
        assert((m.par)(k) == Some(x));
        talls_fit(m, x, (n - 1) as nat);
        tall_fits(m, k);
    }
}

} // verus!
}
