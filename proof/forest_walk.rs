// Walking a forest: descendants and the post-order stack. (The counterpart of tree.rs for arenas whose nodes move.)
pub mod forest_walk {
use vstd::prelude::*;
use crate::prelude::*;
use crate::forest::*;
use crate::forest_laws::*;
verus! {

impl NodeId {
    /// ASSUMED(indextree): `descendants` is the pre-order traversal, the node itself first.
    #[verifier::external_body]
    pub fn descendants<D>(self, arena: &Arena<D>) -> (r: Sq<NodeId>)
        requires trees(arena@), arena@.has(self)
        ensures r@ == pre(arena@, self)
    { unimplemented!() }
}
impl<D> Arena<D> {
    /// ASSUMED(indextree): how many nodes there are (or ever were).
    #[verifier::external_body]
    pub fn count(&self) -> (r: usize) { unimplemented!() }
}
pub proof fn below<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures forall|j: int| 0 <= j < m.kids(x).len() ==> m.depth(x) < m.depth(#[trigger] m.kids(x)[j]) <= m.top && m.has(m.kids(x)[j])
{
    assert forall|j: int| 0 <= j < m.kids(x).len() implies m.depth(x) < m.depth(#[trigger] m.kids(x)[j]) <= m.top && m.has(m.kids(x)[j]) by { kid_depth(m, x, j); }
}

// ---------------------------------------------------------------- post-order iteration
/// What a stack of (node, children visited) still yields.
pub open spec fn todo<D>(m: ForestM<D>, s: Seq<(NodeId, bool)>) -> Seq<NodeId>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        (if s.last().1 { seq![s.last().0] } else { post(m, s.last().0) }) + todo(m, s.drop_last())
    }
}
/// How many more pops.
pub open spec fn work<D>(m: ForestM<D>, s: Seq<(NodeId, bool)>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else {
        (if s.last().1 { 1 } else { 2 * post(m, s.last().0).len() }) + work(m, s.drop_last())
    }
}
pub open spec fn stack_ok<D>(m: ForestM<D>, s: Seq<(NodeId, bool)>) -> bool {
    trees(m) && forall|i: int| 0 <= i < s.len() ==> m.has((#[trigger] s[i]).0)
}
/// Children pushed last to first: the first i of them, on top of `s`.
pub open spec fn piled<D>(m: ForestM<D>, x: NodeId, s: Seq<(NodeId, bool)>, n: int) -> Seq<(NodeId, bool)>
    decreases n
{
    if n <= 0 { s } else { piled(m, x, s, n - 1).push((m.kids(x)[m.kids(x).len() - n], false)) }
}
pub proof fn pushed<D>(m: ForestM<D>, s: Seq<(NodeId, bool)>, e: (NodeId, bool))
    ensures
        todo(m, s.push(e)) == (if e.1 { seq![e.0] } else { post(m, e.0) }) + todo(m, s),
        work(m, s.push(e)) == (if e.1 { 1 } else { 2 * post(m, e.0).len() }) + work(m, s),
{
    assert(s.push(e).drop_last() == s);
    assert(s.push(e).last() == e);
}
/// The last n subtrees below x.
pub open spec fn tail_posts<D>(m: ForestM<D>, x: NodeId, n: int) -> Seq<NodeId>
    decreases n
{
    if n <= 0 { Seq::empty() } else { post(m, m.kids(x)[m.kids(x).len() - n]) + tail_posts(m, x, n - 1) }
}
pub proof fn split_posts<D>(m: ForestM<D>, x: NodeId, n: int)
    requires trees(m), m.has(x), 0 <= n <= m.kids(x).len()
    ensures posts(m, x, m.kids(x).len()) == posts(m, x, (m.kids(x).len() - n) as nat) + tail_posts(m, x, n)
    decreases n
{
    let l = m.kids(x).len();
    if n > 0 {
        split_posts(m, x, n - 1);
        below(m, x);
        let k = m.kids(x)[l - n];
        assert(posts(m, x, (l - n + 1) as nat) == posts(m, x, (l - n) as nat) + post(m, k));
        assert(posts(m, x, (l - n) as nat) + post(m, k) + tail_posts(m, x, n - 1)
            == posts(m, x, (l - n) as nat) + (post(m, k) + tail_posts(m, x, n - 1)));
    } else {
        assert(posts(m, x, l) + tail_posts(m, x, 0) == posts(m, x, l));
    }
}
pub proof fn piled_is<D>(m: ForestM<D>, x: NodeId, s: Seq<(NodeId, bool)>, n: int)
    requires stack_ok(m, s), m.has(x), 0 <= n <= m.kids(x).len()
    ensures stack_ok(m, piled(m, x, s, n)), todo(m, piled(m, x, s, n)) == tail_posts(m, x, n) + todo(m, s),
        work(m, piled(m, x, s, n)) == 2 * tail_posts(m, x, n).len() + work(m, s),
    decreases n
{
    if n > 0 {
        piled_is(m, x, s, n - 1);
        let k = m.kids(x)[m.kids(x).len() - n];
        assert(m.has(k));
        pushed(m, piled(m, x, s, n - 1), (k, false));
        assert(todo(m, piled(m, x, s, n)) == tail_posts(m, x, n) + todo(m, s));
    } else {
        assert(tail_posts(m, x, 0) + todo(m, s) == todo(m, s));
    }
}
/// Replacing (x, false) by (x, true) and its children leaves the same to yield and less to do.
pub proof fn opened<D>(m: ForestM<D>, s: Seq<(NodeId, bool)>, x: NodeId)
    requires stack_ok(m, s), m.has(x)
    ensures ({
        let t = piled(m, x, s.push((x, true)), m.kids(x).len() as int);
        stack_ok(m, t) && todo(m, t) == todo(m, s.push((x, false))) && work(m, t) < work(m, s.push((x, false)))
    })
{
    let l = m.kids(x).len() as int;
    let s1 = s.push((x, true));
    assert(stack_ok(m, s1));
    piled_is(m, x, s1, l);
    pushed(m, s, (x, true));
    pushed(m, s, (x, false));
    split_posts(m, x, l);
    assert(posts(m, x, 0) + tail_posts(m, x, l) == tail_posts(m, x, l));
    assert(tail_posts(m, x, l) + (seq![x] + todo(m, s)) == tail_posts(m, x, l).push(x) + todo(m, s));
}

/// A lazy iterator: what it still yields, and that each step yields the next one.
pub trait Steps: Sized {
    type Item;
    spec fn ok(&self) -> bool;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).ok()
        ensures
            final(self).ok(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0, // @H09
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1); // @H09
}

} // verus!
}
