// The library's own tree: construction, navigation and traversals, against the arena model.
pub mod tree {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::arena::*;
verus! {

#[verifier::reject_recursive_types(T)]
//@item NodeData
#[verifier::reject_recursive_types(T)]
//@item Tree
#[verifier::reject_recursive_types(T)]
//@item PostOrderIter

/// What a tree holds.
impl<T: TreeTypes> View for Tree<T> {
    type V = ArenaM<NodeData<T>>;
    open spec fn view(&self) -> ArenaM<NodeData<T>> { self.arena@ }
}
/// A tree built by adding children: every node but the root hangs below an older one.
pub open spec fn grown<D>(m: ArenaM<D>, root: NodeId) -> bool {
    &&& forest(m)
    &&& m.has(root)
    &&& forall|x: NodeId| #![trigger (m.par)(x)] m.has(x) ==> ((m.par)(x) is None <==> x == root)
    &&& m.ids.len() < usize::MAX / 2
}
/// One more child, last in line; everything else as before.
pub open spec fn child_added<T: TreeTypes>(t0: &Tree<T>, t1: &Tree<T>, p: NodeId, c: NodeId, d: NodeData<T>) -> bool {
    &&& t1.root == t0.root
    &&& !t0@.has(c)
    &&& forall|x: NodeId| #[trigger] t1@.has(x) <==> t0@.has(x) || x == c
    &&& (t1@.par)(c) == Some(p)
    &&& (t1@.kids)(c).len() == 0
    &&& (t1@.data)(c) == d
    &&& (t1@.kids)(p) == (t0@.kids)(p).push(c)
    &&& forall|x: NodeId| #![trigger (t1@.par)(x)] t0@.has(x) ==> (t1@.par)(x) == (t0@.par)(x)
    &&& forall|x: NodeId| #![trigger (t1@.kids)(x)] t0@.has(x) && x != p ==> (t1@.kids)(x) == (t0@.kids)(x)
    &&& forall|x: NodeId| #![trigger (t1@.data)(x)] t0@.has(x) ==> (t1@.data)(x) == (t0@.data)(x)
}
pub proof fn still_grown<D>(m0: ArenaM<D>, root: NodeId, p: NodeId, c: NodeId, d: D)
    requires grown(m0, root), m0.has(p), !m0.has(c), c.ix() == m0.ids.len(), m0.ids.len() + 1 < usize::MAX / 2,
    ensures grown(m0.has_new(c, d).hung(p, c, (m0.kids)(p).push(c)), root)
{
    let m1 = m0.has_new(c, d).hung(p, c, (m0.kids)(p).push(c));
    assert forall|x: NodeId| #[trigger] m1.has(x) <==> m0.has(x) || x == c by {
        if m0.has(x) { assert(m1.ids[x.ix()] == x); }
        if x == c { assert(m1.ids[x.ix()] == x); }
    }
    assert((m1.kids)(p) == (m0.kids)(p).push(c));
    assert((m1.kids)(p)[(m0.kids)(p).len() as int] == c);
    assert((m1.kids)(c).len() == 0);
    assert forall|x: NodeId| #![trigger (m1.par)(x)] m1.has(x) && (m1.par)(x) is Some implies
            m1.has((m1.par)(x)->0) && (m1.kids)((m1.par)(x)->0).contains(x) && (m1.par)(x)->0.ix() < x.ix() by {
        if x == c {
            assert((m1.kids)(p).contains(c));
        } else {
            let q = (m0.par)(x)->0;
            assert((m0.kids)(q).contains(x));
            let i = choose|i: int| 0 <= i < (m0.kids)(q).len() && #[trigger] (m0.kids)(q)[i] == x;
            assert((m1.kids)(q)[i] == x);
        }
    }
    assert forall|q: NodeId, i: int| #![trigger (m1.kids)(q)[i]] m1.has(q) && 0 <= i < (m1.kids)(q).len() implies
            m1.has((m1.kids)(q)[i]) && (m1.par)((m1.kids)(q)[i]) == Some(q) by {
        if q != c && i < (m0.kids)(q).len() { assert((m1.kids)(q)[i] == (m0.kids)(q)[i]); }
    }
    assert forall|q: NodeId| #![trigger (m1.kids)(q)] m1.has(q) implies (m1.kids)(q).no_duplicates() by {
        if q == p {
            let u = (m1.kids)(p);
            let s = (m0.kids)(p);
            assert forall|i: int, j: int| #![trigger u[i], u[j]] 0 <= i < u.len() && 0 <= j < u.len() && i != j implies u[i] != u[j] by {
                if i < s.len() && j < s.len() { assert(s[i] != s[j]); }
                else if i < s.len() { assert(m0.has(s[i])); }
                else if j < s.len() { assert(m0.has(s[j])); }
            }
        } else if q != c {
            assert((m0.kids)(q).no_duplicates());
        }
    }
}

impl<T: TreeTypes> NodeData<T> {
//@fn NodeData::new loops=0
//@params hash kind properties text
//@spec
    ensures r.hash == hash, r.kind == kind, r.properties == properties, r.text == text
//@end
//@fn NodeData::element loops=0
//@params hash kind properties
//@spec
    ensures r.hash == hash, r.kind == kind, r.properties == properties, r.text is None
//@end
}

impl<T: TreeTypes> Tree<T> {
//@fn Tree::new loops=0
//@params root_data
//@spec
    ensures
        r.inv(), // @C12
        forall|x: NodeId| #[trigger] r@.has(x) <==> x == r.root, // @C12
        (r@.par)(r.root) is None && (r@.kids)(r.root).len() == 0 && (r@.data)(r.root) == root_data, // @C12
//@end

//@fn Tree::add_child loops=0
//@params parent data
//@spec
    requires old(self).inv(), old(self)@.has(parent)
    ensures
        final(self).inv(), // @C12
        child_added(old(self), final(self), parent, r, data), // @C12
//@start
    proof {
        let m0 = self@;
        assert forall|c: NodeId| !m0.has(c) && c.ix() == m0.ids.len() && m0.ids.len() + 1 < usize::MAX / 2 implies
            #[trigger] grown(m0.has_new(c, data).hung(parent, c, (m0.kids)(parent).push(c)), self.root) by {
            still_grown(m0, self.root, parent, c, data);
        }
    }
    let ghost t0 = *self;
//@tail
    proof {
        let m0 = t0@;
        let c = self@.ids.last();
        assert(!m0.has(c) && c.ix() == m0.ids.len());
        assert(self@ == m0.has_new(c, data).hung(parent, c, (m0.kids)(parent).push(c))); // @C12
        assert(grown(self@, self.root)); // @C12
        assert forall|x: NodeId| #[trigger] self@.has(x) <==> m0.has(x) || x == c by {
            if m0.has(x) { assert(self@.ids[x.ix()] == x); }
            if x == c { assert(self@.ids[x.ix()] == x); }
        }
    }
//@end

//@fn Tree::get loops=0
//@params id
//@spec
    requires self.inv(), self@.has(id)
    ensures *r == (self@.data)(id) // @C12
//@end

//@fn Tree::parent loops=0
//@params id
//@spec
    requires self.inv(), self@.has(id)
    ensures r == (self@.par)(id) // @C12
//@end

//@fn Tree::children loops=0
//@params id
//@spec
    requires self.inv(), self@.has(id)
    ensures r@ == (self@.kids)(id) // @C12
//@end

//@fn Tree::child_count loops=0
//@params id
//@spec
    requires self.inv(), self@.has(id)
    ensures r == (self@.kids)(id).len() // @C12
//@end

//@fn Tree::position
//@params id
//@spec
    requires self.inv(), self@.has(id)
    ensures r == place(self@, id) // @C12
//@start
    proof { place_of(self@, self.root, id); }
//@end

//@fn Tree::iter loops=0
//@spec
    requires self.inv()
    ensures r@ == pre(self@, self.root) // @C12
//@end

//@fn Tree::post_order loops=0
//@spec
    requires self.inv()
    ensures r@ == post(self@, self.root) // @C12
//@end

//@fn Tree::descendants loops=0
//@params id
//@spec
    requires self.inv(), self@.has(id)
    ensures r@ == pre(self@, id) // @C12
//@end

//@fn Tree::height loops=0
//@params id
//@spec
    requires self.inv(), self@.has(id)
    ensures r == tall(self@, id) // @C12
    decreases self@.ids.len() - id.ix()
//@start
    proof {
        tall_fits(self@, id);
        talls_fit(self@, id, (self@.kids)(id).len());
        below(self@, id);
    }
//@closure 0 requires
    self.inv() && self@.has(*__c0_0) && id.ix() < (*__c0_0).ix()
//@end
}

/// Index among the parent's children.
pub open spec fn place<D>(m: ArenaM<D>, x: NodeId) -> int {
    match (m.par)(x) { Some(p) => (m.kids)(p).index_of(x), None => 0 }
}
pub proof fn place_of<D>(m: ArenaM<D>, root: NodeId, x: NodeId)
    requires grown(m, root), m.has(x)
    ensures match (m.par)(x) {
        Some(p) => 0 <= place(m, x) < (m.kids)(p).len() && (m.kids)(p)[place(m, x)] == x && (m.kids)(p).no_duplicates(),
        None => place(m, x) == 0,
    }
{
}
pub proof fn below<D>(m: ArenaM<D>, x: NodeId)
    requires forest(m), m.has(x)
    ensures forall|j: int| 0 <= j < (m.kids)(x).len() ==> x.ix() < (#[trigger] (m.kids)(x)[j]).ix() < m.ids.len()
{
    assert forall|j: int| 0 <= j < (m.kids)(x).len() implies x.ix() < (#[trigger] (m.kids)(x)[j]).ix() < m.ids.len() by {
        let k = (m.kids)(x)[j];
        assert((m.par)(k) == Some(x));
    }
}

// ---------------------------------------------------------------- post-order iteration
/// What a stack of (node, children visited) still yields.
pub open spec fn todo<D>(m: ArenaM<D>, s: Seq<(NodeId, bool)>) -> Seq<NodeId>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        (if s.last().1 { seq![s.last().0] } else { post(m, s.last().0) }) + todo(m, s.drop_last())
    }
}
/// How many more pops.
pub open spec fn work<D>(m: ArenaM<D>, s: Seq<(NodeId, bool)>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else {
        (if s.last().1 { 1 } else { 2 * post(m, s.last().0).len() }) + work(m, s.drop_last())
    }
}
pub open spec fn stack_ok<D>(m: ArenaM<D>, s: Seq<(NodeId, bool)>) -> bool {
    forest(m) && forall|i: int| 0 <= i < s.len() ==> m.has((#[trigger] s[i]).0)
}
/// Children pushed last to first: the first i of them, on top of `s`.
pub open spec fn piled<D>(m: ArenaM<D>, x: NodeId, s: Seq<(NodeId, bool)>, n: int) -> Seq<(NodeId, bool)>
    decreases n
{
    if n <= 0 { s } else { piled(m, x, s, n - 1).push(((m.kids)(x)[(m.kids)(x).len() - n], false)) }
}
pub proof fn pushed<D>(m: ArenaM<D>, s: Seq<(NodeId, bool)>, e: (NodeId, bool))
    ensures
        todo(m, s.push(e)) == (if e.1 { seq![e.0] } else { post(m, e.0) }) + todo(m, s),
        work(m, s.push(e)) == (if e.1 { 1 } else { 2 * post(m, e.0).len() }) + work(m, s),
{
    assert(s.push(e).drop_last() == s);
    assert(s.push(e).last() == e);
}
/// The last n subtrees below x.
pub open spec fn tail_posts<D>(m: ArenaM<D>, x: NodeId, n: int) -> Seq<NodeId>
    decreases n
{
    if n <= 0 { Seq::empty() } else { post(m, (m.kids)(x)[(m.kids)(x).len() - n]) + tail_posts(m, x, n - 1) }
}
pub proof fn split_posts<D>(m: ArenaM<D>, x: NodeId, n: int)
    requires forest(m), m.has(x), 0 <= n <= (m.kids)(x).len()
    ensures posts(m, x, (m.kids)(x).len()) == posts(m, x, ((m.kids)(x).len() - n) as nat) + tail_posts(m, x, n)
    decreases n
{
    let l = (m.kids)(x).len();
    if n > 0 {
        split_posts(m, x, n - 1);
        below(m, x);
        let k = (m.kids)(x)[l - n];
        assert(posts(m, x, (l - n + 1) as nat) == posts(m, x, (l - n) as nat) + post(m, k));
        assert(posts(m, x, (l - n) as nat) + post(m, k) + tail_posts(m, x, n - 1)
            == posts(m, x, (l - n) as nat) + (post(m, k) + tail_posts(m, x, n - 1)));
    } else {
        assert(posts(m, x, l) + tail_posts(m, x, 0) == posts(m, x, l));
    }
}
pub proof fn piled_is<D>(m: ArenaM<D>, x: NodeId, s: Seq<(NodeId, bool)>, n: int)
    requires stack_ok(m, s), m.has(x), 0 <= n <= (m.kids)(x).len()
    ensures stack_ok(m, piled(m, x, s, n)), todo(m, piled(m, x, s, n)) == tail_posts(m, x, n) + todo(m, s),
        work(m, piled(m, x, s, n)) == 2 * tail_posts(m, x, n).len() + work(m, s),
    decreases n
{
    if n > 0 {
        piled_is(m, x, s, n - 1);
        let k = (m.kids)(x)[(m.kids)(x).len() - n];
        assert(m.has(k));
        pushed(m, piled(m, x, s, n - 1), (k, false));
        assert(todo(m, piled(m, x, s, n)) == tail_posts(m, x, n) + todo(m, s));
    } else {
        assert(tail_posts(m, x, 0) + todo(m, s) == todo(m, s));
    }
}
/// Replacing (x, false) by (x, true) and its children leaves the same to yield and less to do.
pub proof fn opened<D>(m: ArenaM<D>, s: Seq<(NodeId, bool)>, x: NodeId)
    requires stack_ok(m, s), m.has(x)
    ensures ({
        let t = piled(m, x, s.push((x, true)), (m.kids)(x).len() as int);
        stack_ok(m, t) && todo(m, t) == todo(m, s.push((x, false))) && work(m, t) < work(m, s.push((x, false)))
    })
{
    let l = (m.kids)(x).len() as int;
    let s1 = s.push((x, true));
    assert(stack_ok(m, s1));
    piled_is(m, x, s1, l);
    pushed(m, s, (x, true));
    pushed(m, s, (x, false));
    split_posts(m, x, l);
    assert(posts(m, x, 0) + tail_posts(m, x, l) == tail_posts(m, x, l));
    assert(tail_posts(m, x, l) + (seq![x] + todo(m, s)) == tail_posts(m, x, l).push(x) + todo(m, s));
}

/// A lazy iterator: what it still yields, and that each step yields the next one.
pub trait Steps: Sized {
    type Item;
    spec fn ok(&self) -> bool;
    spec fn rest(&self) -> Seq<Self::Item>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).ok()
        ensures
            final(self).ok(),
            old(self).rest().len() == 0 ==> r is None && final(self).rest().len() == 0, // @C12
            old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1); // @C12
}
impl<'a, T: TreeTypes> PostOrderIter<'a, T> {
//@fn PostOrderIter::new loops=0
//@params root arena
//@spec
    requires forest(arena@), arena@.has(root)
    ensures r.ok(), r.rest() == post(arena@, root) // @C12
//@start
    proof {
        pushed(arena@, Seq::empty(), (root, false));
        assert(post(arena@, root) + todo(arena@, Seq::empty()) == post(arena@, root));
        assert forall|s: Seq<(NodeId, bool)>| s.len() == 1 && s[0] == (root, false) implies #[trigger] todo(arena@, s) == post(arena@, root) by {
            assert(s == Seq::<(NodeId, bool)>::empty().push((root, false)));
        }
    }
//@end
}
impl<'a, T: TreeTypes> Steps for PostOrderIter<'a, T> {
    type Item = NodeId;
    open spec fn ok(&self) -> bool { stack_ok(self.arena@, self.stack@) }
    open spec fn rest(&self) -> Seq<NodeId> { todo(self.arena@, self.stack@) }
//@fn <Iterator for PostOrderIter>::next loops=2
//@start
    let ghost m = self.arena@;
//@loop 0 head
    invariant m == self.arena@, stack_ok(m, self.stack@), todo(m, self.stack@) == todo(m, old(self).stack@), m == old(self).arena@,
    ensures self.stack@.len() == 0, m == self.arena@,
    decreases work(m, self.stack@)
//@loop 0 top
    let ghost s0 = self.stack@;
    proof {
        if s0.len() > 0 {
            assert(s0.drop_last().push(s0.last()) == s0);
            assert(m.has(s0.last().0));
            assert(stack_ok(m, s0.drop_last()));
            pushed(m, s0.drop_last(), s0.last());
            if !s0.last().1 { opened(m, s0.drop_last(), s0.last().0); }
            else { assert((seq![s0.last().0] + todo(m, s0.drop_last())).skip(1) == todo(m, s0.drop_last())); }
        }
    }
//@loop 1 head
    invariant
        m == self.arena@, s0.len() > 0, __s1@.len() == (m.kids)(s0.last().0).len(),
        forall|i: int| 0 <= i < __s1@.len() ==> #[trigger] __s1@[i] == (m.kids)(s0.last().0)[__s1@.len() - 1 - i],
        self.stack@ == piled(m, s0.last().0, s0.drop_last().push((s0.last().0, true)), __i1 as int), // @C12
//@end
}
impl<'a, T: TreeTypes> IntoSq<NodeId> for PostOrderIter<'a, T> {
    open spec fn sq_ok(self) -> bool { self.ok() }
    open spec fn sq_of(self) -> Seq<NodeId> { self.rest() }
    fn into_sq(self) -> (r: Sq<NodeId>) {
        let mut it = self;
        let mut v: Vec<NodeId> = Vec::new();
        proof { assert(v@ + it.rest() == self.rest()); }
        loop
            invariant it.ok(), v@ + it.rest() == self.rest()
            ensures it.rest().len() == 0, v@ + it.rest() == self.rest()
            decreases it.rest().len()
        {
            let ghost r0 = it.rest();
            let ghost v0 = v@;
            match it.next() {
                Some(x) => {
                    v.push(x);
                    proof { assert(v0 + r0 == v@ + it.rest()); }
                }
                None => { break; }
            }
        }
        proof { assert(v@ == self.rest()); }
        Sq { v }
    }
}

// ---------------------------------------------------------------- Tree as a DiffTree
impl<T: TreeTypes> DiffTree for Tree<T> {
    type Types = T;
    open spec fn inv(&self) -> bool { grown(self@, self.root) }
    open spec fn s_has(&self, id: NodeId) -> bool { self@.has(id) }
    open spec fn live(&self) -> Set<NodeId> { self@.ids.to_set() }
    open spec fn s_root(&self) -> NodeId { self.root }
    open spec fn s_hash(&self, id: NodeId) -> NodeHash { (self@.data)(id).hash }
    open spec fn s_kind(&self, id: NodeId) -> &T::Kind { &(self@.data)(id).kind }
    open spec fn s_properties(&self, id: NodeId) -> &T::Props { &(self@.data)(id).properties }
    open spec fn s_text(&self, id: NodeId) -> Option<&T::Text> {
        match &(self@.data)(id).text { Some(x) => Some(x), None => None }
    }
    open spec fn s_parent(&self, id: NodeId) -> Option<NodeId> { (self@.par)(id) }
    open spec fn s_children(&self, id: NodeId) -> Seq<NodeId> { (self@.kids)(id) }
    open spec fn s_child_count(&self, id: NodeId) -> usize { (self@.kids)(id).len() as usize }
    open spec fn s_position(&self, id: NodeId) -> usize { place(self@, id) as usize }
    open spec fn s_height(&self, id: NodeId) -> usize { tall(self@, id) as usize }
    open spec fn s_iter(&self) -> Seq<NodeId> { pre(self@, self.root) }
    open spec fn s_post(&self) -> Seq<NodeId> { post(self@, self.root) }
    open spec fn s_descendants(&self, id: NodeId) -> Seq<NodeId> { pre(self@, id) }
    open spec fn s_near(&self, id: NodeId) -> bool { false }
    open spec fn s_rooted(&self) -> bool { true }
    open spec fn s_is_opaque(&self, id: NodeId) -> bool { false }

    //@fn <DiffTree for Tree>::root
    //@end
    //@fn <DiffTree for Tree>::node_count
    //@end
    //@fn <DiffTree for Tree>::hash
    //@end
    //@fn <DiffTree for Tree>::kind
    //@end
    //@fn <DiffTree for Tree>::properties
    //@end
    //@fn <DiffTree for Tree>::text
    //@end
    //@fn <DiffTree for Tree>::parent
    //@end
    //@fn <DiffTree for Tree>::children
    //@end
    //@fn <DiffTree for Tree>::child_count
    //@end
    //@fn <DiffTree for Tree>::position
    //@end
    //@fn <DiffTree for Tree>::height
    //@end
    //@fn <DiffTree for Tree>::iter
    //@end
    //@fn <DiffTree for Tree>::post_order
    //@end
    //@fn <DiffTree for Tree>::descendants
    //@end
    //@fn DiffTree::is_opaque
    //@end
}

} // verus!
}
