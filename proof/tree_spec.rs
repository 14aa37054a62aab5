// The DiffTree / Properties traits with contracts, and the laws every tree is held to.
pub mod tree_spec {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
verus! {

//@item PropValue
//@item PropertyInFinalState

pub trait Properties: Clone {
    type Key: Clone + Eq;
    type Value: Clone + Eq;
    spec fn s_similarity(&self, other: &Self) -> f64;
    spec fn s_diff(&self, other: &Self) -> Seq<PropertyInFinalState<Self::Key, Self::Value>>;
    spec fn s_len(&self) -> nat;
    //@fn Properties::similarity
    //@spec
        ensures r == self.s_similarity(other)
    //@end
    //@fn Properties::diff
    //@spec
        ensures r@ == self.s_diff(other)
    //@end
    //@fn Properties::is_empty
    //@spec
        ensures r == (self.s_len() == 0)
    //@end
    //@fn Properties::len
    //@spec
        ensures r == self.s_len()
    //@end
}

/// (Hash and Display bounds of the real trait are dropped: no contract uses them.)
pub trait TreeTypes {
    type Kind: Clone + Eq;
    type Props: Properties;
    type Text: Clone + Eq;
    /// What a text says (two texts that say the same may be kept differently).
    type TextV;
    spec fn text_v(t: &Self::Text) -> Self::TextV;
}
/// What a node's text says.
pub open spec fn says<T: TreeTypes>(o: Option<&T::Text>) -> Option<T::TextV> { match o { Some(x) => Some(T::text_v(x)), None => None } }

pub trait DiffTree: Sized {
    type Types: TreeTypes;
    /// Representation invariant of the implementation.
    spec fn inv(&self) -> bool;
    /// The node belongs to the tree.
    spec fn s_has(&self, id: NodeId) -> bool;
    spec fn live(&self) -> Set<NodeId>;
    spec fn s_root(&self) -> NodeId;
    spec fn s_hash(&self, id: NodeId) -> NodeHash;
    spec fn s_kind(&self, id: NodeId) -> &<Self::Types as TreeTypes>::Kind;
    spec fn s_properties(&self, id: NodeId) -> &<Self::Types as TreeTypes>::Props;
    spec fn s_text(&self, id: NodeId) -> Option<&<Self::Types as TreeTypes>::Text>;
    spec fn s_parent(&self, id: NodeId) -> Option<NodeId>;
    spec fn s_children(&self, id: NodeId) -> Seq<NodeId>;
    spec fn s_child_count(&self, id: NodeId) -> usize;
    spec fn s_position(&self, id: NodeId) -> usize;
    spec fn s_height(&self, id: NodeId) -> usize;
    spec fn s_iter(&self) -> Seq<NodeId>;
    spec fn s_post(&self) -> Seq<NodeId>;
    spec fn s_descendants(&self, id: NodeId) -> Seq<NodeId>;
    spec fn s_is_opaque(&self, id: NodeId) -> bool;
    /// A node outside the tree that the tree still answers `parent` and `is_opaque` for: what the
    /// tree is a part of. Every tree that is one of its own has none.
    spec fn s_near(&self, id: NodeId) -> bool;
    /// The root answers that it has no parent (a part of a larger tree may name a node outside itself).
    spec fn s_rooted(&self) -> bool;


    //@fn DiffTree::root
    //@spec
        requires self.inv()
        ensures r == self.s_root() // @C12 @H09
    //@end
    //@fn DiffTree::node_count
    //@spec
        requires self.inv()
    //@end
    //@fn DiffTree::hash
    //@spec
        requires self.inv(), self.s_has(id) // @C11
        ensures r == self.s_hash(id) // @C12 @H09
    //@end
    //@fn DiffTree::kind
    //@spec
        requires self.inv(), self.s_has(id) // @C11
        ensures r == self.s_kind(id) // @C12 @H09
    //@end
    //@fn DiffTree::properties
    //@spec
        requires self.inv(), self.s_has(id) // @C11
        ensures r == self.s_properties(id) // @C12 @H09
    //@end
    //@fn DiffTree::text
    //@spec
        requires self.inv(), self.s_has(id) // @C11
        ensures r == self.s_text(id) // @C12 @H09
    //@end
    //@fn DiffTree::parent
    //@spec
        requires self.inv(), self.s_has(id) || self.s_near(id) // @C11
        ensures
            self.s_has(id) && (id != self.s_root() || self.s_rooted()) ==> r == self.s_parent(id), // @C12 @H09
            !self.s_has(id) || (id == self.s_root() && !self.s_rooted()) ==> r is None || self.s_near(r->0), // @C12 @H09
    //@end
    //@fn DiffTree::children
    //@spec
        requires self.inv(), self.s_has(id) // @C11
        ensures r@ == self.s_children(id) // @C12 @H09
    //@end
    //@fn DiffTree::height
    //@spec
        requires self.inv(), self.s_has(id) // @C11
        ensures r == self.s_height(id) // @C12 @H09
    //@end
    //@fn DiffTree::iter
    //@spec
        requires self.inv()
        ensures r@ == self.s_iter() // @C12 @H09
    //@end
    //@fn DiffTree::post_order
    //@spec
        requires self.inv()
        ensures r@ == self.s_post() // @C12 @H09
    //@end
    //@fn DiffTree::descendants
    //@spec
        requires self.inv(), self.s_has(id) // @C11
        ensures r@ == self.s_descendants(id) // @C12 @H09
    //@end
    fn child_count(&self, id: NodeId) -> (r: usize)
        requires self.inv(), self.s_has(id) // @C11
        ensures r == self.s_child_count(id); // @C12 @H09
    fn position(&self, id: NodeId) -> (r: usize)
        requires self.inv(), self.s_has(id) // @C11
        ensures r == self.s_position(id); // @C12 @H09
    fn is_opaque(&self, id: NodeId) -> (r: bool)
        requires self.inv(), self.s_has(id) || self.s_near(id) // @C11
        ensures r == (self.s_has(id) && self.s_is_opaque(id)); // @C12 @H09
}

/// The root of a tree that is a part of a larger one: its parent is outside.
pub open spec fn edge<T: DiffTree>(t: &T, id: NodeId) -> bool { id == t.s_root() && !t.s_rooted() }

// ---------------------------------------------------------------- ancestry
/// `n` steps from `y` towards the root.
pub open spec fn up<T: DiffTree>(t: &T, y: NodeId, n: nat) -> Option<NodeId>
    decreases n
{
    if n == 0 { Some(y) } else {
        match up(t, y, (n - 1) as nat) { Some(z) => t.s_parent(z), None => None }
    }
}
/// `x` is `y` or one of its ancestors.
pub open spec fn anc<T: DiffTree>(t: &T, x: NodeId, y: NodeId) -> bool {
    exists|n: nat| #[trigger] up(t, y, n) == Some(x)
}
/// `y` lies strictly inside an opaque node.
pub open spec fn in_op<T: DiffTree>(t: &T, y: NodeId) -> bool {
    exists|o: NodeId| #[trigger] t.s_has(o) && t.s_is_opaque(o) && o != y && anc(t, o, y)
}

// ---------------------------------------------------------------- laws
/// Equality and cloning of the payload types mean what they say.
pub open spec fn clone_ok<K: Clone>() -> bool {
    forall|x: K, y: K| #[trigger] call_ensures(K::clone, (&x,), y) ==> x == y
}
pub open spec fn types_ok<T: TreeTypes>() -> bool {
    &&& eq_ok::<T::Kind>() && clone_ok::<T::Kind>()
    &&& vstd::laws_eq::obeys_eq::<T::Text>()
    &&& forall|x: T::Text, y: T::Text| #[trigger] x.eq_spec(&y) <==> T::text_v(&x) == T::text_v(&y)
    &&& forall|x: T::Text, y: T::Text| #[trigger] call_ensures(T::Text::clone, (&x,), y) ==> T::text_v(&x) == T::text_v(&y)
}

/// Shape: finite rooted ordered tree.
pub open spec fn law_shape<T: DiffTree>(t: &T) -> bool {
    &&& forall|x: NodeId| #[trigger] t.s_has(x) <==> t.live().contains(x)
    &&& t.s_has(t.s_root())
    &&& t.s_parent(t.s_root()) is None
    &&& forall|x: NodeId| #[trigger] t.s_has(x) && x != t.s_root() ==> t.s_parent(x) is Some
    &&& forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some ==>
            t.s_has(t.s_parent(x)->0) && t.s_children(t.s_parent(x)->0).contains(x)
    &&& forall|p: NodeId, i: int| #![trigger t.s_children(p)[i]] t.s_has(p) && 0 <= i < t.s_children(p).len() ==>
            t.s_has(t.s_children(p)[i]) && t.s_parent(t.s_children(p)[i]) == Some(p)
    &&& forall|p: NodeId| t.s_has(p) ==> (#[trigger] t.s_children(p)).no_duplicates()
    &&& forall|p: NodeId| t.s_has(p) ==> #[trigger] t.s_child_count(p) == t.s_children(p).len()
    &&& forall|x: NodeId, y: NodeId| #![trigger x.ix(), y.ix()] t.s_has(x) && t.s_has(y) && x.ix() == y.ix() ==> x == y
    &&& forall|x: NodeId, y: NodeId| #![trigger t.s_near(x), t.s_has(y)] t.s_near(x) && t.s_has(y) ==> x.ix() != y.ix()
}
/// Heights strictly increase towards the root; leaves are exactly the nodes of height 0.
pub open spec fn law_height<T: DiffTree>(t: &T) -> bool {
    &&& forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some ==>
            t.s_height(x) < t.s_height(t.s_parent(x)->0)
    &&& forall|x: NodeId| t.s_has(x) ==> ((#[trigger] t.s_height(x)) == 0 <==> t.s_children(x).len() == 0)
}
/// Sibling positions.
pub open spec fn law_position<T: DiffTree>(t: &T) -> bool {
    forall|x: NodeId| #![trigger t.s_position(x)] t.s_has(x) ==> match t.s_parent(x) {
        Some(p) => t.s_position(x) < t.s_children(p).len() && t.s_children(p)[t.s_position(x) as int] == x,
        None => edge(t, x) || t.s_position(x) == 0,
    }
}
/// The pre-order (or breadth-first) traversal: every node once, parents first.
pub open spec fn law_iter<T: DiffTree>(t: &T) -> bool {
    &&& t.s_iter().no_duplicates()
    &&& forall|x: NodeId| #[trigger] t.s_has(x) <==> t.s_iter().contains(x)
    &&& forall|i: int| 0 <= i < t.s_iter().len() ==> t.s_has(#[trigger] t.s_iter()[i])
    &&& forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some ==>
            t.s_iter().index_of(t.s_parent(x)->0) < t.s_iter().index_of(x)
}
/// The post-order traversal: every node once, children first.
pub open spec fn law_post<T: DiffTree>(t: &T) -> bool {
    &&& t.s_post().no_duplicates()
    &&& forall|x: NodeId| #[trigger] t.s_has(x) <==> t.s_post().contains(x)
    &&& forall|i: int| 0 <= i < t.s_post().len() ==> t.s_has(#[trigger] t.s_post()[i])
    &&& forall|x: NodeId| #![trigger t.s_parent(x)] t.s_has(x) && t.s_parent(x) is Some ==>
            t.s_post().index_of(x) < t.s_post().index_of(t.s_parent(x)->0)
}
/// `descendants(x)` is x and everything below it.
pub open spec fn law_desc<T: DiffTree>(t: &T) -> bool {
    &&& forall|x: NodeId, y: NodeId| t.s_has(x) ==> (#[trigger] t.s_descendants(x).contains(y) <==> t.s_has(y) && anc(t, x, y))
    &&& forall|x: NodeId, i: int| t.s_has(x) && 0 <= i < t.s_descendants(x).len() ==> t.s_has(#[trigger] t.s_descendants(x)[i])
    &&& forall|x: NodeId| t.s_has(x) ==> (#[trigger] t.s_descendants(x)).no_duplicates()
}
/// ASSUMED(memory): a tree node occupies more than two bytes, so counts of nodes add up
/// without overflow.
pub open spec fn law_size<T: DiffTree>(t: &T) -> bool {
    t.live().len() < usize::MAX / 2
}

pub open spec fn laws<T: DiffTree>(t: &T) -> bool {
    &&& types_ok::<T::Types>()
    &&& law_shape(t)
    &&& law_height(t)
    &&& law_position(t)
    &&& law_iter(t)
    &&& law_post(t)
    &&& law_desc(t)
    &&& law_size(t)
}

/// A tree that keeps its own invariant and the laws.
pub open spec fn tree_ok<T: DiffTree>(t: &T) -> bool { t.inv() && laws(t) }

// ---------------------------------------------------------------- lemmas
pub proof fn lemma_anc_refl<T: DiffTree>(t: &T, x: NodeId)
    ensures anc(t, x, x)
{
    assert(up(t, x, 0) == Some(x));
}

/// Walking up never decreases the height and stays in the tree.
pub proof fn lemma_up_height<T: DiffTree>(t: &T, y: NodeId, n: nat)
    requires law_shape(t), law_height(t), t.s_has(y)
    ensures up(t, y, n) is Some ==> t.s_has(up(t, y, n)->0)
        && t.s_height(up(t, y, n)->0) >= t.s_height(y)
        && (n > 0 ==> t.s_height(up(t, y, n)->0) > t.s_height(y))
    decreases n
{
    if n > 0 { lemma_up_height(t, y, (n - 1) as nat); }
}

/// One step first, then n steps.
pub proof fn lemma_up_first<T: DiffTree>(t: &T, y: NodeId, n: nat)
    ensures up(t, y, n + 1) == (match t.s_parent(y) { Some(p) => up(t, p, n), None => None })
    decreases n
{
    if n > 0 {
        lemma_up_first(t, y, (n - 1) as nat);
    } else {
        assert(up(t, y, 1) == (match up(t, y, 0) { Some(z) => t.s_parent(z), None => None }));
        assert(up(t, y, 0) == Some(y));
        if let Some(p) = t.s_parent(y) { assert(up(t, p, 0) == Some(p)); }
    }
}

/// Ancestors of a node: itself, or the ancestors of its parent.
pub proof fn lemma_anc_step<T: DiffTree>(t: &T, x: NodeId, y: NodeId)
    ensures anc(t, x, y) <==> (x == y || (t.s_parent(y) is Some && anc(t, x, t.s_parent(y)->0)))
{
    if anc(t, x, y) {
        let n = choose|n: nat| #[trigger] up(t, y, n) == Some(x);
        if n == 0 {
        } else {
            lemma_up_first(t, y, (n - 1) as nat);
            assert(up(t, t.s_parent(y)->0, (n - 1) as nat) == Some(x));
        }
    }
    if x == y { lemma_anc_refl(t, x); }
    if t.s_parent(y) is Some && anc(t, x, t.s_parent(y)->0) {
        let n = choose|n: nat| #[trigger] up(t, t.s_parent(y)->0, n) == Some(x);
        lemma_up_first(t, y, n);
        assert(up(t, y, n + 1) == Some(x));
    }
}

/// A proper ancestor is strictly higher.
pub proof fn lemma_anc_height<T: DiffTree>(t: &T, x: NodeId, y: NodeId)
    requires law_shape(t), law_height(t), t.s_has(y), anc(t, x, y)
    ensures t.s_has(x), t.s_height(x) >= t.s_height(y), x != y ==> t.s_height(x) > t.s_height(y)
{
    let n = choose|n: nat| #[trigger] up(t, y, n) == Some(x);
    lemma_up_height(t, y, n);
}

/// A node lies inside an opaque node iff its parent is opaque or lies inside one.
pub proof fn lemma_in_op_step<T: DiffTree>(t: &T, y: NodeId)
    requires law_shape(t), law_height(t), t.s_has(y)
    ensures in_op(t, y) <==> (t.s_parent(y) is Some && (t.s_is_opaque(t.s_parent(y)->0) || in_op(t, t.s_parent(y)->0)))
{
    if in_op(t, y) {
        let o = choose|o: NodeId| #[trigger] t.s_has(o) && t.s_is_opaque(o) && o != y && anc(t, o, y);
        lemma_anc_step(t, o, y);
    }
    if let Some(p) = t.s_parent(y) {
        assert(t.s_height(y) < t.s_height(p));
        lemma_anc_step(t, p, y);
        lemma_anc_refl(t, p);
        if t.s_is_opaque(p) {
            assert(t.s_has(p) && t.s_is_opaque(p) && p != y && anc(t, p, y));
        }
        if in_op(t, p) {
            let o = choose|o: NodeId| #[trigger] t.s_has(o) && t.s_is_opaque(o) && o != p && anc(t, o, p);
            lemma_anc_step(t, o, y);
            lemma_anc_height(t, o, p);
            assert(t.s_has(o) && t.s_is_opaque(o) && o != y && anc(t, o, y));
        }
    }
}

/// The first node of the traversal is the root.
pub proof fn lemma_iter_first<T: DiffTree>(t: &T)
    requires law_shape(t), law_iter(t)
    ensures t.s_iter().len() > 0, t.s_iter()[0] == t.s_root()
{
    let it = t.s_iter();
    assert(t.s_has(t.s_root()));
    assert(it.contains(t.s_root()));
    let x = it[0];
    assert(t.s_has(x));
    if x != t.s_root() {
        let p = t.s_parent(x)->0;
        assert(t.s_has(p));
        assert(it.contains(p));
        lemma_index_of(it, 0);
        assert(0 <= it.index_of(p));
    }
}

pub proof fn lemma_index_of<A>(s: Seq<A>, i: int)
    requires s.no_duplicates(), 0 <= i < s.len()
    ensures s.index_of(s[i]) == i
{
    let k = s.index_of(s[i]);
    assert(s.contains(s[i]));
    assert(s[k] == s[i]);
}

} // verus!
}
