// indextree as the hotmeal crate uses it: nodes are created, moved and detached freely.
// Everything marked external_body here is an ASSUMED contract on that dependency.
pub mod forest {
use vstd::prelude::*;
use crate::prelude::*;
verus! {

/// The nodes, and for each its data, parent, ordered children and distance from its root.
pub ghost struct ForestM<D> {
    pub has: spec_fn(NodeId) -> bool,
    pub data: spec_fn(NodeId) -> D,
    pub par: spec_fn(NodeId) -> Option<NodeId>,
    pub kids: spec_fn(NodeId) -> Seq<NodeId>,
    pub depth: spec_fn(NodeId) -> nat,
    /// No node is deeper than this.
    pub top: nat,
}
impl<D> ForestM<D> {
    pub open spec fn has(self, x: NodeId) -> bool { (self.has)(x) }
    pub open spec fn data(self, x: NodeId) -> D { (self.data)(x) }
    pub open spec fn par(self, x: NodeId) -> Option<NodeId> { (self.par)(x) }
    pub open spec fn kids(self, x: NodeId) -> Seq<NodeId> { (self.kids)(x) }
    pub open spec fn depth(self, x: NodeId) -> nat { (self.depth)(x) }
    /// `x` is `y` or above it.
    pub open spec fn over(self, x: NodeId, y: NodeId) -> bool
        decreases self.depth(y)
    {
        x == y || match self.par(y) { Some(p) => self.depth(p) < self.depth(y) && self.over(x, p), None => false }
    }
}
/// Parent and children lists agree, nothing is below itself.
pub open spec fn trees<D>(m: ForestM<D>) -> bool {
    &&& forall|x: NodeId| #![trigger m.par(x)] m.has(x) && m.par(x) is Some ==>
            m.has(m.par(x)->0) && m.kids(m.par(x)->0).contains(x) && m.depth(x) == m.depth(m.par(x)->0) + 1
    &&& forall|p: NodeId, i: int| #![trigger m.kids(p)[i]] m.has(p) && 0 <= i < m.kids(p).len() ==>
            m.has(m.kids(p)[i]) && m.par(m.kids(p)[i]) == Some(p)
    &&& forall|p: NodeId| #![trigger m.kids(p)] m.has(p) ==> m.kids(p).no_duplicates()
    &&& forall|x: NodeId| #![trigger m.depth(x)] m.has(x) ==> m.depth(x) <= m.top
}
pub proof fn kid_depth<D>(m: ForestM<D>, p: NodeId, i: int)
    requires trees(m), m.has(p), 0 <= i < m.kids(p).len()
    ensures m.has(m.kids(p)[i]), m.par(m.kids(p)[i]) == Some(p), m.depth(m.kids(p)[i]) == m.depth(p) + 1, m.depth(m.kids(p)[i]) <= m.top
{
    let k = m.kids(p)[i];
    assert(m.par(k) == Some(p));
}

#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Arena<D> { p: core::marker::PhantomData<D> }
impl<D> View for Arena<D> {
    type V = ForestM<D>;
    uninterp spec fn view(&self) -> ForestM<D>;
}
#[verifier::external_body]
#[verifier::reject_recursive_types(D)]
pub struct Node<D> { p: core::marker::PhantomData<D> }
impl<D> Node<D> {
    pub uninterp spec fn m(&self) -> ForestM<D>;
    pub uninterp spec fn id(&self) -> NodeId;
    pub open spec fn s_get(&self) -> D { self.m().data(self.id()) }
    pub open spec fn s_parent(&self) -> Option<NodeId> { self.m().par(self.id()) }
    #[verifier::external_body]
    pub fn get(&self) -> (r: &D) ensures *r == self.m().data(self.id()) { unimplemented!() }
    /// what `get` shows is what it then holds
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self) -> (r: &'a mut D)
        ensures *r == old(self).s_get(), final(self).s_get() == *final(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<NodeId>) ensures r == self.m().par(self.id()) { unimplemented!() }
    #[verifier::external_body]
    pub fn first_child(&self) -> (r: Option<NodeId>)
        ensures ({ let s = self.m().kids(self.id()); r == (if s.len() > 0 { Some(s[0]) } else { None }) })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last_child(&self) -> (r: Option<NodeId>)
        ensures ({ let s = self.m().kids(self.id()); r == (if s.len() > 0 { Some(s.last()) } else { None }) })
    { unimplemented!() }
}
/// The neighbours of a node among the children of its parent.
pub open spec fn after_in(s: Seq<NodeId>, x: NodeId) -> Option<NodeId> {
    let i = s.index_of(x);
    if i + 1 < s.len() { Some(s[i + 1]) } else { None }
}
pub open spec fn before_in(s: Seq<NodeId>, x: NodeId) -> Option<NodeId> {
    let i = s.index_of(x);
    if 0 < i { Some(s[i - 1]) } else { None }
}
impl<D> Node<D> {
    /// (of a node without a parent nothing is said)
    #[verifier::external_body]
    pub fn next_sibling(&self) -> (r: Option<NodeId>)
        ensures self.m().par(self.id()) is Some ==> r == after_in(self.m().kids(self.m().par(self.id())->0), self.id())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn previous_sibling(&self) -> (r: Option<NodeId>)
        ensures self.m().par(self.id()) is Some ==> r == before_in(self.m().kids(self.m().par(self.id())->0), self.id())
    { unimplemented!() }
}
/// ASSUMED(derive): a copy of an arena has the same nodes under the same numbers (D's own copies are taken for equal).
impl<D> Clone for Arena<D> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
impl<D> Arena<D> {
    pub uninterp spec fn s_at(&self, id: NodeId) -> Node<D>;
    /// `arena[id]`
    #[verifier::external_body]
    pub fn at<'a>(&'a self, id: NodeId) -> (r: &'a Node<D>)
        requires self@.has(id) ensures r.m() == self@, r.id() == id, *r == self.s_at(id)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, id: NodeId) -> (r: Option<&'a Node<D>>)
        ensures self@.has(id) ==> r is Some && r->0.m() == self@ && r->0.id() == id
    { unimplemented!() }
}
/// ASSUMED(memory): no node has 2^32 children.
#[verifier::external_body]
pub broadcast proof fn few_kids<D>(a: &Arena<D>, x: NodeId)
    requires a@.has(x)
    ensures #[trigger] a@.kids(x).len() < u32::MAX
{}

/// ASSUMED(memory): an arena does not have anything like usize::MAX nodes.
#[verifier::external_body]
pub broadcast proof fn not_deep<D>(a: &Arena<D>)
    ensures (#[trigger] a@).top < usize::MAX / 2
{}
/// ASSUMED(indextree): the nodes of an arena have different numbers.
#[verifier::external_body]
pub proof fn one_slot<D>(a: &Arena<D>, x: NodeId, y: NodeId)
    requires a@.has(x), a@.has(y), x.ix() == y.ix()
    ensures x == y
{}
impl NodeId {
    #[verifier::external_body]
    pub fn children<D>(self, arena: &Arena<D>) -> (r: Sq<NodeId>)
        requires arena@.has(self) ensures r@ == arena@.kids(self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reverse_children<D>(self, arena: &Arena<D>) -> (r: Sq<NodeId>)
        requires arena@.has(self) ensures r@ == arena@.kids(self).reverse()
    { unimplemented!() }
}

} // verus!
}
