// The library's tree keeps every law the other properties assume of a DiffTree; and the
// trait's default methods do what implementations are held to.
pub mod tree_laws {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::arena::*;
use crate::tree::*;
verus! {

pub proof fn over_anc<T: TreeTypes>(t: &Tree<T>, x: NodeId, y: NodeId)
    requires t.inv(), t@.has(y)
    ensures over(t@, x, y) <==> anc(t, x, y)
    decreases y.ix()
{
    lemma_anc_step(t, x, y);
    if let Some(p) = (t@.par)(y) { over_anc(t, x, p); }
}
pub proof fn below_root<D>(m: ArenaM<D>, root: NodeId, y: NodeId)
    requires grown(m, root), m.has(y)
    ensures over(m, root, y)
    decreases y.ix()
{
    if y != root { below_root(m, root, (m.par)(y)->0); }
}
/// Every law of tree_spec.rs.
pub proof fn library_tree<T: TreeTypes>(t: &Tree<T>)
    requires t.inv(), types_ok::<T>()
    ensures tree_ok(t) // @C12
{
    let m = t@;
    shape(t);
    assert(law_height(t)) by {
        assert forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some implies t.s_height(x) < t.s_height(t.s_parent(x)->0) by {
            let p = t.s_parent(x)->0;
            let j = choose|j: int| 0 <= j < (m.kids)(p).len() && #[trigger] (m.kids)(p)[j] == x;
            talls_fit(m, p, (m.kids)(p).len());
            tall_fits(m, p);
            tall_fits(m, x);
            assert(tall(m, (m.kids)(p)[j]) < tall(m, p));
        }
        assert forall|x: NodeId| t.s_has(x) implies ((#[trigger] t.s_height(x)) == 0 <==> t.s_children(x).len() == 0) by {
            tall_fits(m, x);
        }
    }
    assert(law_position(t)) by {
        assert forall|x: NodeId| #![trigger t.s_position(x)] t.s_has(x) implies match t.s_parent(x) {
            Some(p) => t.s_position(x) < t.s_children(p).len() && t.s_children(p)[t.s_position(x) as int] == x,
            None => t.s_position(x) == 0,
        } by {
            place_of(m, t.root, x);
            if let Some(p) = t.s_parent(x) { few_kids(t, p); }
        }
    }
    orders(t);
    assert(law_desc(t)) by {
        assert forall|x: NodeId, y: NodeId| t.s_has(x) implies (#[trigger] t.s_descendants(x).contains(y) <==> t.s_has(y) && anc(t, x, y)) by {
            pre_holds(m, x);
            if t.s_has(y) { over_anc(t, x, y); }
        }
        assert forall|x: NodeId, i: int| t.s_has(x) && 0 <= i < t.s_descendants(x).len() implies t.s_has(#[trigger] t.s_descendants(x)[i]) by {
            pre_holds(m, x);
            assert(t.s_descendants(x).contains(t.s_descendants(x)[i]));
        }
        assert forall|x: NodeId| t.s_has(x) implies (#[trigger] t.s_descendants(x)).no_duplicates() by { pre_holds(m, x); }
    }
    assert(law_size(t)) by {
        distinct(m);
        m.ids.unique_seq_to_set();
    }
}
proof fn distinct<D>(m: ArenaM<D>)
    requires forest(m)
    ensures m.ids.no_duplicates()
{
    assert forall|i: int, j: int| #![trigger m.ids[i], m.ids[j]] 0 <= i < m.ids.len() && 0 <= j < m.ids.len() && i != j implies m.ids[i] != m.ids[j] by {
        assert(m.ids[i].ix() == i && m.ids[j].ix() == j);
    }
}
/// Fewer children than nodes.
proof fn few_kids<T: TreeTypes>(t: &Tree<T>, p: NodeId)
    requires t.inv(), t@.has(p)
    ensures (t@.kids)(p).len() <= t@.ids.len()
{
    let m = t@;
    distinct(m);
    m.ids.unique_seq_to_set();
    (m.kids)(p).unique_seq_to_set();
    assert forall|x: NodeId| (m.kids)(p).to_set().contains(x) implies m.ids.to_set().contains(x) by {
        let i = choose|i: int| 0 <= i < (m.kids)(p).len() && #[trigger] (m.kids)(p)[i] == x;
        assert(m.has((m.kids)(p)[i]));
        assert(m.ids[x.ix()] == x);
    }
    vstd::set_lib::lemma_len_subset((m.kids)(p).to_set(), m.ids.to_set());
}
proof fn shape<T: TreeTypes>(t: &Tree<T>)
    requires t.inv()
    ensures law_shape(t)
{
    let m = t@;
    assert forall|x: NodeId| #[trigger] t.s_has(x) <==> t.live().contains(x) by {
        if t.live().contains(x) {
            let i = choose|i: int| 0 <= i < m.ids.len() && m.ids[i] == x;
            assert(m.ids[i].ix() == i);
        }
        if t.s_has(x) { assert(m.ids[x.ix()] == x); }
    }
    assert forall|p: NodeId| t.s_has(p) implies #[trigger] t.s_child_count(p) == t.s_children(p).len() by { few_kids(t, p); }
    assert forall|p: NodeId| t.s_has(p) implies (#[trigger] t.s_children(p)).no_duplicates() by { assert((m.kids)(p).no_duplicates()); }
    assert forall|p: NodeId, i: int| #![trigger t.s_children(p)[i]] t.s_has(p) && 0 <= i < t.s_children(p).len() implies
            t.s_has(t.s_children(p)[i]) && t.s_parent(t.s_children(p)[i]) == Some(p) by {
        assert(m.has((m.kids)(p)[i]));
    }
    assert forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some implies
            t.s_has(t.s_parent(x)->0) && t.s_children(t.s_parent(x)->0).contains(x) by {
        assert((m.par)(x) is Some);
    }
    assert((m.par)(t.root) is None);
    assert forall|x: NodeId| #[trigger] t.s_has(x) && x != t.s_root() implies t.s_parent(x) is Some by {
        assert((m.par)(x) is None <==> x == t.root);
    }
}
proof fn orders<T: TreeTypes>(t: &Tree<T>)
    requires t.inv()
    ensures law_iter(t), law_post(t), pre_sorted(t@, t.s_iter()), post_sorted(t@, t.s_post())
{
    let m = t@;
    let r = t.root;
    pre_holds(m, r);
    post_holds(m, r);
    pre_order(m, r);
    post_order(m, r);
    let s = t.s_iter();
    let u = t.s_post();
    assert forall|x: NodeId| #[trigger] t.s_has(x) implies s.contains(x) && u.contains(x) by { below_root(m, r, x); }
    assert forall|i: int| 0 <= i < s.len() implies t.s_has(#[trigger] s[i]) by { assert(s.contains(s[i])); }
    assert forall|i: int| 0 <= i < u.len() implies t.s_has(#[trigger] u[i]) by { assert(u.contains(u[i])); }
    assert forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some implies
            s.index_of(t.s_parent(x)->0) < s.index_of(x) && u.index_of(x) < u.index_of(t.s_parent(x)->0) by {
        let p = t.s_parent(x)->0;
        assert(t.s_has(p));
        assert(s.contains(x) && s.contains(p) && u.contains(x) && u.contains(p));
        assert(s[s.index_of(x)] == x && s[s.index_of(p)] == p);
        assert(u[u.index_of(x)] == x && u[u.index_of(p)] == p);
    }
}
/// What C12 says about the traversals, spelled out.
pub proof fn traversals<T: TreeTypes>(t: &Tree<T>)
    requires t.inv()
    ensures
        t.s_iter().no_duplicates() && t.s_post().no_duplicates(), // @C12
        forall|x: NodeId| #![trigger t@.has(x)] t@.has(x) <==> t.s_iter().contains(x), // @C12
        forall|x: NodeId| #![trigger t@.has(x)] t@.has(x) <==> t.s_post().contains(x), // @C12
        pre_sorted(t@, t.s_iter()), // @C12
        post_sorted(t@, t.s_post()), // @C12
        t.s_iter().len() == t@.ids.len(), // @C12
{
    orders(t);
    shape(t);
    let m = t@;
    assert forall|x: NodeId| #![trigger t@.has(x)] (t@.has(x) <==> t.s_iter().contains(x)) && (t@.has(x) <==> t.s_post().contains(x)) by {
        assert(t.s_has(x) <==> t.s_iter().contains(x));
        assert(t.s_has(x) <==> t.s_post().contains(x));
    }
    distinct(m);
    m.ids.unique_seq_to_set();
    t.s_iter().unique_seq_to_set();
    assert forall|x: NodeId| m.ids.to_set().contains(x) <==> t.s_iter().to_set().contains(x) by {
        assert(t.s_has(x) <==> t.live().contains(x));
        assert(t@.has(x) <==> t.s_iter().contains(x));
    }
    assert(m.ids.to_set() == t.s_iter().to_set());
}

// ---------------------------------------------------------------- default methods of DiffTree
/// A tree that inherits them (its other methods forward to any lawful tree).
pub struct Heir<'a, T: DiffTree> { pub t: &'a T }
impl<'a, T: DiffTree> Heir<'a, T> {
    pub open spec fn ok(&self) -> bool { tree_ok(self.t) && self.t.s_rooted() }
    fn root(&self) -> (r: NodeId) requires self.ok() ensures r == self.t.s_root() { self.t.root() }
    fn parent(&self, id: NodeId) -> (r: Option<NodeId>) requires self.ok(), self.t.s_has(id) ensures r == self.t.s_parent(id) { self.t.parent(id) }
    fn children(&self, id: NodeId) -> (r: Sq<NodeId>) requires self.ok(), self.t.s_has(id) ensures r@ == self.t.s_children(id) { self.t.children(id) }
    //@fn DiffTree::child_count loops=0
    //@params id
    //@spec
        requires self.ok(), self.t.s_has(id)
        ensures r == self.t.s_child_count(id) // @C12
    //@end
    //@fn DiffTree::position
    //@params id
    //@spec
        requires self.ok(), self.t.s_has(id)
        ensures r == self.t.s_position(id) // @C12
    //@start
        proof {
            if let Some(q) = self.t.s_parent(id) {
                assert(self.t.s_children(q)[self.t.s_position(id) as int] == id);
                assert(self.t.s_children(q).no_duplicates());
            }
            assert(self.t.s_position(id) == 0 || self.t.s_parent(id) is Some);
        }
    //@loop 0 head
        invariant
            __s0@.len() == self.t.s_children(self.t.s_parent(id)->0).len(), self.t.s_parent(id) is Some,
            forall|i: int| 0 <= i < __s0@.len() ==> #[trigger] __s0@[i] == (i as usize, self.t.s_children(self.t.s_parent(id)->0)[i]),
            self.t.s_position(id) < __s0@.len(), self.t.s_children(self.t.s_parent(id)->0)[self.t.s_position(id) as int] == id,
            self.t.s_children(self.t.s_parent(id)->0).no_duplicates(),
            forall|i: int| 0 <= i < __i0 ==> self.t.s_children(self.t.s_parent(id)->0)[i] != id,
    //@end
}

// ---------------------------------------------------------------- vacuity guard
pub fn must_fail_tree_ops<T: TreeTypes>(d0: NodeData<T>, d1: NodeData<T>, d2: NodeData<T>)
    requires types_ok::<T>()
{
    let mut t = Tree::new(d0);
    let r = t.root;
    let a = t.add_child(r, d1);
    let b = t.add_child(a, d2);
    let k = t.position(a);
    let h = t.height(r);
    let c = t.child_count(r);
    let it = t.iter();
    let po = t.post_order();
    proof { library_tree(&t); traversals(&t); }
    assert(c == 1);
    assert(false);
}

} // verus!
}
