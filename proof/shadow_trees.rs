// The old page as cinereus sees it (the library's own tree, wrapped), on the arena model of the hotmeal crate.
pub mod shadow_trees {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::forest::*;
use crate::forest_mut::{up, above, without, created, same_nodes, detached, inserted, retold};
use crate::forest_laws::*;
use crate::forest_walk::*;
use crate::forest_tree::*;
use crate::html_types::*;
use crate::html_props::*;
verus! {

#[verifier::reject_recursive_types(T)]
//@item Tree@tree.rs
#[verifier::reject_recursive_types(T)]
//@item PostOrderIter
//@item OpaqueAwareTree

/// What a tree holds, and that it is one tree.
pub open spec fn whole<D>(m: ForestM<D>, root: NodeId) -> bool {
    &&& trees(m)
    &&& m.has(root)
    &&& m.par(root) is None
    &&& forall|x: NodeId| #[trigger] m.has(x) ==> over(m, root, x)
}
impl<T: TreeTypes> Tree<T> {
    //@fn Tree::get loops=0
    //@params id
    //@spec
        requires self.arena@.has(id)
        ensures *r == self.arena@.data(id), // @H03 @H09
    //@end
    //@fn Tree::parent loops=0
    //@params id
    //@spec
        requires self.inv(), self.arena@.has(id)
        ensures r == self.arena@.par(id) // @H09
    //@end
    //@fn Tree::children loops=0
    //@params id
    //@spec
        requires self.arena@.has(id)
        ensures r@ == self.arena@.kids(id) // @H09
    //@end
    //@fn Tree::child_count loops=0
    //@params id
    //@spec
        requires self.inv(), self.arena@.has(id)
        ensures r == self.arena@.kids(id).len() // @H09
    //@end
    //@fn Tree::position
    //@params id
    //@spec
        requires self.inv(), self.arena@.has(id)
        ensures r == place(self.arena@, id) // @H09
    //@start
        proof { place_of(self.arena@, id); }
    //@end
    //@fn Tree::iter loops=0
    //@spec
        requires self.inv()
        ensures r@ == pre(self.arena@, self.root) // @H09
    //@end
    //@fn Tree::post_order loops=0
    //@spec
        requires self.inv()
        ensures r@ == post(self.arena@, self.root) // @H09
    //@end
    //@fn Tree::descendants loops=0
    //@params id
    //@spec
        requires self.inv(), self.arena@.has(id)
        ensures r@ == pre(self.arena@, id) // @H09
    //@end
    //@fn Tree::height loops=0
    //@params id
    //@spec
        requires self.inv(), self.arena@.has(id)
        ensures r == tall(self.arena@, id) // @H09
        decreases below_top(self.arena@, id)
    //@start
        broadcast use not_deep;
        proof {
            tall_fits(self.arena@, id);
            talls_fit(self.arena@, id, self.arena@.kids(id).len());
            below(self.arena@, id);
        }
    //@closure 0 requires
        self.inv() && self.arena@.has(*__c0_0) && below_top(self.arena@, *__c0_0) < below_top(self.arena@, id)
    //@end
}
impl<'a, T: TreeTypes> PostOrderIter<'a, T> {
//@fn PostOrderIter::new loops=0
//@params root arena
//@spec
    requires trees(arena@), arena@.has(root)
    ensures r.ok(), r.rest() == post(arena@, root) // @H09
//@start
    proof {
        pushed(arena@, Seq::empty(), (root, false));
        assert(post(arena@, root) + todo(arena@, Seq::empty()) == post(arena@, root));
        assert forall|s: Seq<(NodeId, bool)>| s.len() == 1 && s[0] == (root, false) implies #[trigger] todo(arena@, s) == post(arena@, root) by {
            assert(s == Seq::<(NodeId, bool)>::empty().push((root, false)));
        }
    }
//@end
}
impl<'a, T: TreeTypes> Steps for PostOrderIter<'a, T> {
    type Item = NodeId;
    open spec fn ok(&self) -> bool { stack_ok(self.arena@, self.stack@) }
    open spec fn rest(&self) -> Seq<NodeId> { todo(self.arena@, self.stack@) }
//@fn <Iterator for PostOrderIter>::next loops=2
//@start
    let ghost m = self.arena@;
//@loop 0 head
    invariant m == self.arena@, stack_ok(m, self.stack@), todo(m, self.stack@) == todo(m, old(self).stack@), m == old(self).arena@,
    ensures self.stack@.len() == 0, m == self.arena@,
    decreases work(m, self.stack@)
//@loop 0 top
    let ghost s0 = self.stack@;
    proof {
        if s0.len() > 0 {
            assert(s0.drop_last().push(s0.last()) == s0);
            assert(m.has(s0.last().0));
            assert(stack_ok(m, s0.drop_last()));
            pushed(m, s0.drop_last(), s0.last());
            if !s0.last().1 { opened(m, s0.drop_last(), s0.last().0); }
            else { assert((seq![s0.last().0] + todo(m, s0.drop_last())).skip(1) == todo(m, s0.drop_last())); }
        }
    }
//@loop 1 head
    invariant
        m == self.arena@, s0.len() > 0, __s1@.len() == m.kids(s0.last().0).len(),
        forall|i: int| 0 <= i < __s1@.len() ==> #[trigger] __s1@[i] == m.kids(s0.last().0)[__s1@.len() - 1 - i],
        self.stack@ == piled(m, s0.last().0, s0.drop_last().push((s0.last().0, true)), __i1 as int), // @H09
//@end
}
impl<'a, T: TreeTypes> IntoSq<NodeId> for PostOrderIter<'a, T> {
    open spec fn sq_ok(self) -> bool { self.ok() }
    open spec fn sq_of(self) -> Seq<NodeId> { self.rest() }
    fn into_sq(self) -> (r: Sq<NodeId>) {
        let mut it = self;
        let mut v: Vec<NodeId> = Vec::new();
        proof { assert(v@ + it.rest() == self.rest()); }
        loop
            invariant it.ok(), v@ + it.rest() == self.rest()
            ensures it.rest().len() == 0, v@ + it.rest() == self.rest()
            decreases it.rest().len()
        {
            let ghost r0 = it.rest();
            let ghost v0 = v@;
            match it.next() {
                Some(x) => {
                    v.push(x);
                    proof { assert(v0 + r0 == v@ + it.rest()); }
                }
                None => { break; }
            }
        }
        proof { assert(v@ == self.rest()); }
        Sq { v }
    }
}
/// The library's own tree, on an arena whose nodes move. (Built by adding children, on an arena that only grows: unit_tree, C12.)
impl<T: TreeTypes> DiffTree for Tree<T> {
    type Types = T;
    open spec fn inv(&self) -> bool { whole(self.arena@, self.root) }
    open spec fn s_has(&self, id: NodeId) -> bool { self.arena@.has(id) }
    open spec fn live(&self) -> Set<NodeId> { pre(self.arena@, self.root).to_set() }
    open spec fn s_root(&self) -> NodeId { self.root }
    open spec fn s_hash(&self, id: NodeId) -> NodeHash { self.arena@.data(id).hash }
    open spec fn s_kind(&self, id: NodeId) -> &T::Kind { &self.arena@.data(id).kind }
    open spec fn s_properties(&self, id: NodeId) -> &T::Props { &self.arena@.data(id).properties }
    open spec fn s_text(&self, id: NodeId) -> Option<&T::Text> { match &self.arena@.data(id).text { Some(x) => Some(x), None => None } }
    open spec fn s_parent(&self, id: NodeId) -> Option<NodeId> { self.arena@.par(id) }
    open spec fn s_children(&self, id: NodeId) -> Seq<NodeId> { self.arena@.kids(id) }
    open spec fn s_child_count(&self, id: NodeId) -> usize { self.arena@.kids(id).len() as usize }
    open spec fn s_position(&self, id: NodeId) -> usize { place(self.arena@, id) as usize }
    open spec fn s_height(&self, id: NodeId) -> usize { tall(self.arena@, id) as usize }
    open spec fn s_iter(&self) -> Seq<NodeId> { pre(self.arena@, self.root) }
    open spec fn s_post(&self) -> Seq<NodeId> { post(self.arena@, self.root) }
    open spec fn s_descendants(&self, id: NodeId) -> Seq<NodeId> { pre(self.arena@, id) }
    open spec fn s_near(&self, id: NodeId) -> bool { false }
    open spec fn s_rooted(&self) -> bool { true }
    open spec fn s_is_opaque(&self, id: NodeId) -> bool { false }
    //@fn <DiffTree for Tree>::root
    //@end
    //@fn <DiffTree for Tree>::node_count
    //@end
    //@fn <DiffTree for Tree>::hash
    //@end
    //@fn <DiffTree for Tree>::kind
    //@end
    //@fn <DiffTree for Tree>::properties
    //@end
    //@fn <DiffTree for Tree>::text
    //@end
    //@fn <DiffTree for Tree>::parent
    //@end
    //@fn <DiffTree for Tree>::children
    //@end
    //@fn <DiffTree for Tree>::child_count
    //@end
    //@fn <DiffTree for Tree>::position
    //@end
    //@fn <DiffTree for Tree>::height
    //@end
    //@fn <DiffTree for Tree>::iter
    //@end
    //@fn <DiffTree for Tree>::post_order
    //@end
    //@fn <DiffTree for Tree>::descendants
    //@end
    //@fn DiffTree::is_opaque
    //@end
}
/// A tree that keeps its invariant is one the differencer accepts.
pub proof fn tree_lawful<T: TreeTypes>(t: &Tree<T>)
    requires t.inv(), types_ok::<T>()
    ensures tree_ok(t)
{
    assert(seen_as(t, t.arena@, t.root));
    lawful(t, &t.arena, t.root);
}
pub proof fn wrapped_lawful<'a>(t: &OpaqueAwareTree<'a>)
    requires t.inv(), types_ok::<HtmlTreeTypes<'a>>()
    ensures tree_ok(t)
{
    assert(seen_as(t, t.0.arena@, t.0.root));
    lawful(t, &t.0.arena, t.0.root);
}
pub open spec fn marked(p: &HtmlProps<'_>) -> bool {
    exists|i: int| 0 <= i < p.attrs@.len() && (#[trigger] p.attrs@[i]).0.local.s() == "data-hotmeal-opaque"@
}
impl<'a> DiffTree for OpaqueAwareTree<'a> {
    type Types = HtmlTreeTypes<'a>;
    open spec fn inv(&self) -> bool { self.0.inv() }
    open spec fn s_has(&self, id: NodeId) -> bool { self.0.s_has(id) }
    open spec fn live(&self) -> Set<NodeId> { self.0.live() }
    open spec fn s_root(&self) -> NodeId { self.0.s_root() }
    open spec fn s_hash(&self, id: NodeId) -> NodeHash { self.0.s_hash(id) }
    open spec fn s_kind(&self, id: NodeId) -> &HtmlNodeKind { self.0.s_kind(id) }
    open spec fn s_properties(&self, id: NodeId) -> &HtmlProps<'a> { self.0.s_properties(id) }
    open spec fn s_text(&self, id: NodeId) -> Option<&Stem<'a>> { self.0.s_text(id) }
    open spec fn s_parent(&self, id: NodeId) -> Option<NodeId> { self.0.s_parent(id) }
    open spec fn s_children(&self, id: NodeId) -> Seq<NodeId> { self.0.s_children(id) }
    open spec fn s_child_count(&self, id: NodeId) -> usize { self.0.s_child_count(id) }
    open spec fn s_position(&self, id: NodeId) -> usize { self.0.s_position(id) }
    open spec fn s_height(&self, id: NodeId) -> usize { self.0.s_height(id) }
    open spec fn s_iter(&self) -> Seq<NodeId> { self.0.s_iter() }
    open spec fn s_post(&self) -> Seq<NodeId> { self.0.s_post() }
    open spec fn s_descendants(&self, id: NodeId) -> Seq<NodeId> { self.0.s_descendants(id) }
    open spec fn s_near(&self, id: NodeId) -> bool { self.0.s_near(id) }
    open spec fn s_rooted(&self) -> bool { self.0.s_rooted() }
    open spec fn s_is_opaque(&self, id: NodeId) -> bool { !self.1@.contains(id) && marked(self.0.s_properties(id)) }
    //@fn <DiffTree for OpaqueAwareTree>::root loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::node_count loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::hash loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::kind loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::properties loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::text loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::parent loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::children loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::child_count loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::position loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::height loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::iter loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::post_order loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::descendants loops=0
    //@end
    //@fn <DiffTree for OpaqueAwareTree>::is_opaque loops=0
    //@end
}

} // verus!
}
