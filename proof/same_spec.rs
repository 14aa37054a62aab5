// Identical trees: what the matching must contain, and why the script is then empty.
pub mod same_spec {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::matching_spec::*;
verus! {

/// `f` maps the old tree onto the new one and nothing tells a node from its image.
pub open spec fn same_by<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, f: spec_fn(NodeId) -> NodeId) -> bool {
    &&& f(ta.s_root()) == tb.s_root()
    &&& forall|x: NodeId| #![trigger f(x)] ta.s_has(x) ==> {
        &&& tb.s_has(f(x))
        &&& ta.s_hash(x) == tb.s_hash(f(x))
        &&& *ta.s_kind(x) == *tb.s_kind(f(x))
        &&& *ta.s_properties(x) == *tb.s_properties(f(x))
        &&& says::<TA::Types>(ta.s_text(x)) == says::<TA::Types>(tb.s_text(f(x)))
        &&& ta.s_is_opaque(x) == tb.s_is_opaque(f(x))
        &&& ta.s_children(x).len() == tb.s_children(f(x)).len()
        &&& forall|i: int| #![trigger ta.s_children(x)[i]] #![trigger tb.s_children(f(x))[i]] 0 <= i < ta.s_children(x).len() ==> tb.s_children(f(x))[i] == f(ta.s_children(x)[i])
    }
    &&& forall|x: NodeId, y: NodeId| #![trigger f(x), f(y)] ta.s_has(x) && ta.s_has(y) && f(x) == f(y) ==> x == y
    &&& forall|y: NodeId| #![trigger tb.s_has(y)] tb.s_has(y) ==> exists|x: NodeId| ta.s_has(x) && #[trigger] f(x) == y
}
/// The trees are identical.
#[verifier::opaque]
pub open spec fn same<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB) -> bool {
    exists|f: spec_fn(NodeId) -> NodeId| #[trigger] same_by(ta, tb, f)
}
/// The counterpart of an old node.
#[verifier::opaque]
pub open spec fn twin<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, x: NodeId) -> NodeId {
    (choose|f: spec_fn(NodeId) -> NodeId| #[trigger] same_by(ta, tb, f))(x)
}
pub proof fn twin_of<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, x: NodeId)
    requires same(ta, tb), ta.s_has(x)
    ensures
        tb.s_has(twin(ta, tb, x)),
        ta.s_hash(x) == tb.s_hash(twin(ta, tb, x)),
        *ta.s_kind(x) == *tb.s_kind(twin(ta, tb, x)),
        *ta.s_properties(x) == *tb.s_properties(twin(ta, tb, x)),
        says::<TA::Types>(ta.s_text(x)) == says::<TA::Types>(tb.s_text(twin(ta, tb, x))),
        ta.s_is_opaque(x) == tb.s_is_opaque(twin(ta, tb, x)),
        ta.s_children(x).len() == tb.s_children(twin(ta, tb, x)).len(),
        forall|i: int| #![trigger ta.s_children(x)[i]] #![trigger tb.s_children(twin(ta, tb, x))[i]]
            0 <= i < ta.s_children(x).len() ==> tb.s_children(twin(ta, tb, x))[i] == twin(ta, tb, ta.s_children(x)[i]),
{
    reveal(same); reveal(twin);
    let f = choose|f: spec_fn(NodeId) -> NodeId| #[trigger] same_by(ta, tb, f);
    assert(f(x) == twin(ta, tb, x));
}
pub proof fn twin_root<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB)
    requires same(ta, tb)
    ensures twin(ta, tb, ta.s_root()) == tb.s_root()
{
    reveal(same); reveal(twin);
}
pub proof fn twin_inj<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, x: NodeId, y: NodeId)
    requires same(ta, tb), ta.s_has(x), ta.s_has(y), twin(ta, tb, x) == twin(ta, tb, y)
    ensures x == y
{
    reveal(same); reveal(twin);
    let f = choose|f: spec_fn(NodeId) -> NodeId| #[trigger] same_by(ta, tb, f);
    assert(f(x) == f(y));
}
pub proof fn twin_onto<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, y: NodeId) -> (x: NodeId)
    requires same(ta, tb), tb.s_has(y)
    ensures ta.s_has(x), twin(ta, tb, x) == y
{
    reveal(same); reveal(twin);
    let f = choose|f: spec_fn(NodeId) -> NodeId| #[trigger] same_by(ta, tb, f);
    let x = choose|x: NodeId| ta.s_has(x) && #[trigger] f(x) == y;
    x
}
/// Parents and positions of twins.
pub proof fn twin_place<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, x: NodeId)
    requires trees(ta, tb), same(ta, tb), ta.s_has(x), x != ta.s_root()
    ensures ta.s_parent(x) is Some, ta.s_has(ta.s_parent(x)->0), tb.s_parent(twin(ta, tb, x)) == Some(twin(ta, tb, ta.s_parent(x)->0)),
        ta.s_position(x) == tb.s_position(twin(ta, tb, x)),
{
    reveal(trees);
    let p = ta.s_parent(x)->0;
    let i = ta.s_position(x) as int;
    assert(ta.s_children(p)[i] == x);
    twin_of(ta, tb, p);
    twin_of(ta, tb, x);
    let y = twin(ta, tb, x);
    let q = twin(ta, tb, p);
    assert(tb.s_children(q)[i] == y);
    assert(tb.s_parent(y) == Some(q));
    let j = tb.s_position(y) as int;
    assert(tb.s_children(q)[j] == y);
    assert(tb.s_children(q).no_duplicates());
    assert(i == j);
}
pub proof fn twin_up<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, x: NodeId, n: nat)
    requires trees(ta, tb), same(ta, tb), ta.s_has(x), up(ta, x, n) is Some
    ensures ta.s_has(up(ta, x, n)->0), up(tb, twin(ta, tb, x), n) == Some(twin(ta, tb, up(ta, x, n)->0))
    decreases n
{
    if n > 0 {
        twin_up(ta, tb, x, (n - 1) as nat);
        let z = up(ta, x, (n - 1) as nat)->0;
        reveal(trees);
        assert(ta.s_parent(z) is Some);
        assert(z != ta.s_root());
        twin_place(ta, tb, z);
    }
}
pub proof fn twin_anc<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, a: NodeId, x: NodeId)
    requires trees(ta, tb), same(ta, tb), ta.s_has(x), anc(ta, a, x)
    ensures anc(tb, twin(ta, tb, a), twin(ta, tb, x))
{
    let n = choose|n: nat| #[trigger] up(ta, x, n) == Some(a);
    twin_up(ta, tb, x, n);
}
/// Twins lie inside opaque nodes together.
pub proof fn twin_op<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, x: NodeId)
    requires trees(ta, tb), same(ta, tb), ta.s_has(x)
    ensures in_op(ta, x) == in_op(tb, twin(ta, tb, x))
    decreases usize::MAX - ta.s_height(x)
{
    let y = twin(ta, tb, x);
    twin_of(ta, tb, x);
    if x == ta.s_root() {
        twin_root(ta, tb);
        laws_here(ta, tb);
    } else {
        twin_place(ta, tb, x);
        let p = ta.s_parent(x)->0;
        reveal(trees);
        assert(ta.s_height(x) < ta.s_height(p));
        twin_op(ta, tb, p);
        twin_of(ta, tb, p);
        lemma_in_op_step(ta, x);
        lemma_in_op_step(tb, y);
    }
}

// ---------------------------------------------------------------- subtrees
pub proof fn up_add<T: DiffTree>(t: &T, x: NodeId, n: nat, k: nat)
    requires up(t, x, n) is Some
    ensures up(t, x, n + k) == up(t, up(t, x, n)->0, k)
    decreases k
{
    if k > 0 { up_add(t, x, n, (k - 1) as nat); }
}
/// A node lies below at most one of its siblings' subtrees.
pub proof fn siblings_apart<T: DiffTree>(t: &T, c: NodeId, d: NodeId, x: NodeId)
    requires tree_ok(t), t.s_has(c), t.s_has(d), t.s_has(x), t.s_parent(c) is Some, t.s_parent(c) == t.s_parent(d), anc(t, c, x), anc(t, d, x)
    ensures c == d
{
    let n = choose|n: nat| #[trigger] up(t, x, n) == Some(c);
    let k = choose|k: nat| #[trigger] up(t, x, k) == Some(d);
    if n < k { apart(t, c, d, x, n, k); }
    if k < n { apart(t, d, c, x, k, n); }
}
proof fn apart<T: DiffTree>(t: &T, c: NodeId, d: NodeId, x: NodeId, n: nat, k: nat)
    requires tree_ok(t), t.s_has(c), t.s_has(d), t.s_parent(c) is Some, t.s_parent(c) == t.s_parent(d), up(t, x, n) == Some(c), up(t, x, k) == Some(d), n < k
    ensures false
{
    up_add(t, x, n, (k - n) as nat);
    lemma_up_first(t, c, (k - n - 1) as nat);
    let p = t.s_parent(c)->0;
    lemma_up_height(t, p, (k - n - 1) as nat);
    assert(t.s_height(d) < t.s_height(t.s_parent(d)->0));
}
/// Below a node: the node itself, or below one of its children.
pub proof fn below_child<T: DiffTree>(t: &T, a: NodeId, x: NodeId) -> (i: int)
    requires tree_ok(t), t.s_has(a), t.s_has(x), anc(t, a, x), x != a
    ensures 0 <= i < t.s_children(a).len(), anc(t, t.s_children(a)[i], x)
{
    let n = choose|n: nat| #[trigger] up(t, x, n) == Some(a);
    let c = up(t, x, (n - 1) as nat)->0;
    assert(up(t, x, (n - 1) as nat) == Some(c));
    lemma_up_height(t, x, (n - 1) as nat);
    assert(t.s_parent(c) == Some(a));
    assert(t.s_children(a).contains(c));
    let i = choose|i: int| 0 <= i < t.s_children(a).len() && t.s_children(a)[i] == c;
    assert(anc(t, c, x));
    i
}

// ---------------------------------------------------------------- one recursive match
/// Only nodes below the two got new partners.
#[verifier::opaque]
pub open spec fn frame<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m0: &Matching, m1: &Matching, a: NodeId, b: NodeId) -> bool {
    &&& forall|x: NodeId| #![trigger m1.s_get_b(x)] ta.s_has(x) && m1.s_get_b(x) != m0.s_get_b(x) ==> anc(ta, a, x)
    &&& forall|y: NodeId| #![trigger m1.s_get_a(y)] tb.s_has(y) && m1.s_get_a(y) != m0.s_get_a(y) ==> anc(tb, b, y)
}
/// Nothing below `a` and nothing below its twin is matched.
#[verifier::opaque]
pub open spec fn fresh<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, a: NodeId) -> bool {
    forall|x: NodeId| #![trigger twin(ta, tb, x)] #![trigger m.s_get_b(x)] ta.s_has(x) && anc(ta, a, x) ==> m.s_get_b(x) is None && m.s_get_a(twin(ta, tb, x)) is None
}
/// Everything below `a` outside opaque nodes is matched with its twin.
#[verifier::opaque]
pub open spec fn paired<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, a: NodeId) -> bool {
    forall|x: NodeId| #![trigger twin(ta, tb, x)] #![trigger m.s_get_b(x)] ta.s_has(x) && anc(ta, a, x) && !in_op(ta, x) ==> m.s_get_b(x) == Some(twin(ta, tb, x))
}
/// What one call of the recursive matcher promises.
pub open spec fn matched_call<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: &Matching, m1: &Matching, a: NodeId, b: NodeId) -> bool {
    same(ta, tb) && b == twin(ta, tb, a) && fresh(ta, tb, m0, a) ==> paired(ta, tb, m1, a)
}
/// Half-way through the children of `a`.
#[verifier::opaque]
pub open spec fn halfway<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, i: int) -> bool {
    &&& m.s_get_b(a) == Some(twin(ta, tb, a))
    &&& forall|j: int| #![trigger ta.s_children(a)[j]] 0 <= j < i && j < ta.s_children(a).len() ==> paired(ta, tb, m, ta.s_children(a)[j])
    &&& forall|j: int| #![trigger ta.s_children(a)[j]] i <= j < ta.s_children(a).len() ==> fresh(ta, tb, m, ta.s_children(a)[j])
}
/// Nothing happened.
pub proof fn frame_none<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId)
    ensures frame(ta, tb, m, m, a, b)
{
    reveal(frame);
}
/// The early return does not happen to a fresh pair.
pub proof fn fresh_top<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, a: NodeId)
    requires ta.s_has(a), fresh(ta, tb, m, a)
    ensures m.s_get_b(a) is None, m.s_get_a(twin(ta, tb, a)) is None
{
    reveal(fresh);
    lemma_anc_refl(ta, a);
}
/// After the pair itself was added.
pub proof fn frame_add<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: &Matching, m1: &Matching, a: NodeId, b: NodeId)
    requires
        forall|x: NodeId| ta.s_has(x) && x != a ==> #[trigger] m1.s_get_b(x) == m0.s_get_b(x),
        forall|x: NodeId| tb.s_has(x) && x != b ==> #[trigger] m1.s_get_a(x) == m0.s_get_a(x),
    ensures frame(ta, tb, m0, m1, a, b)
{
    reveal(frame);
    lemma_anc_refl(ta, a);
    lemma_anc_refl(tb, b);
}
pub proof fn half_start<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: &Matching, m1: &Matching, a: NodeId, b: NodeId)
    requires trees(ta, tb), ta.s_has(a), tb.s_has(b), same(ta, tb), b == twin(ta, tb, a), fresh(ta, tb, m0, a),
        m1.s_get_b(a) == Some(b),
        forall|x: NodeId| ta.s_has(x) && x != a ==> #[trigger] m1.s_get_b(x) == m0.s_get_b(x),
        forall|x: NodeId| tb.s_has(x) && x != b ==> #[trigger] m1.s_get_a(x) == m0.s_get_a(x),
    ensures halfway(ta, tb, m1, a, 0), (ta.s_is_opaque(a) ==> paired(ta, tb, m1, a))
{
    reveal(halfway); reveal(fresh); reveal(paired);
    kids_a(ta, tb, a);
    assert forall|j: int| #![trigger ta.s_children(a)[j]] 0 <= j < ta.s_children(a).len() implies fresh(ta, tb, m1, ta.s_children(a)[j]) by {
        let c = ta.s_children(a)[j];
        assert forall|x: NodeId| #![trigger twin(ta, tb, x)] #![trigger m1.s_get_b(x)] ta.s_has(x) && anc(ta, c, x) implies m1.s_get_b(x) is None && m1.s_get_a(twin(ta, tb, x)) is None by {
            reveal(trees);
            lemma_anc_height(ta, c, x);
            assert(x != a);
            through(ta, a, c, x);
            twin_of(ta, tb, x);
            if twin(ta, tb, x) == b { twin_inj(ta, tb, x, a); }
            assert(m0.s_get_b(x) is None && m0.s_get_a(twin(ta, tb, x)) is None);
        }
    }
    if ta.s_is_opaque(a) {
        assert forall|x: NodeId| #![trigger twin(ta, tb, x)] #![trigger m1.s_get_b(x)] ta.s_has(x) && anc(ta, a, x) && !in_op(ta, x) implies m1.s_get_b(x) == Some(twin(ta, tb, x)) by {
            if x != a { assert(ta.s_has(a) && ta.s_is_opaque(a) && a != x && anc(ta, a, x)); }
        }
    }
}
/// Below a child is below the parent.
pub proof fn through<T: DiffTree>(t: &T, a: NodeId, c: NodeId, x: NodeId)
    requires t.s_parent(c) == Some(a), anc(t, c, x)
    ensures anc(t, a, x)
{
    let n = choose|n: nat| #[trigger] up(t, x, n) == Some(c);
    assert(up(t, x, n + 1) == Some(a));
}
/// One child done.
pub proof fn half_step<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: &Matching, m1: &Matching, a: NodeId, b: NodeId, i: int)
    requires trees(ta, tb), ta.s_has(a), tb.s_has(b), same(ta, tb), b == twin(ta, tb, a), halfway(ta, tb, m0, a, i),
        0 <= i < ta.s_children(a).len(), grew(*m0, *m1),
        frame(ta, tb, m0, m1, ta.s_children(a)[i], tb.s_children(b)[i]),
        matched_call(ta, tb, m0, m1, ta.s_children(a)[i], tb.s_children(b)[i]),
    ensures halfway(ta, tb, m1, a, i + 1)
{
    reveal(halfway); reveal(fresh); reveal(paired); reveal(frame);
    kids_a(ta, tb, a);
    kids_b(ta, tb, b);
    twin_of(ta, tb, a);
    let ci = ta.s_children(a)[i];
    let di = tb.s_children(b)[i];
    assert(di == twin(ta, tb, ci));
    assert(paired(ta, tb, m1, ci));
    assert forall|j: int| #![trigger ta.s_children(a)[j]] 0 <= j < i + 1 && j < ta.s_children(a).len() implies paired(ta, tb, m1, ta.s_children(a)[j]) by {
        if j < i { assert(paired(ta, tb, m0, ta.s_children(a)[j])); }
    }
    assert forall|j: int| #![trigger ta.s_children(a)[j]] i + 1 <= j < ta.s_children(a).len() implies fresh(ta, tb, m1, ta.s_children(a)[j]) by {
        let cj = ta.s_children(a)[j];
        let dj = tb.s_children(b)[j];
        assert(fresh(ta, tb, m0, cj));
        assert(cj != ci && dj != di) by { reveal(trees); assert(ta.s_children(a).no_duplicates()); assert(tb.s_children(b).no_duplicates()); }
        assert forall|x: NodeId| #![trigger twin(ta, tb, x)] #![trigger m1.s_get_b(x)] ta.s_has(x) && anc(ta, cj, x) implies m1.s_get_b(x) is None && m1.s_get_a(twin(ta, tb, x)) is None by {
            let y = twin(ta, tb, x);
            twin_of(ta, tb, x);
            assert(m0.s_get_b(x) is None && m0.s_get_a(y) is None);
            if m1.s_get_b(x) is Some { reveal(trees); siblings_apart(ta, ci, cj, x); }
            if m1.s_get_a(y) is Some {
                twin_anc(ta, tb, cj, x);
                assert(dj == twin(ta, tb, cj));
                reveal(trees);
                siblings_apart(tb, di, dj, y);
            }
        }
    }
}
pub proof fn half_end<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, i: int)
    requires trees(ta, tb), ta.s_has(a), halfway(ta, tb, m, a, i), i >= ta.s_children(a).len()
    ensures paired(ta, tb, m, a)
{
    reveal(halfway); reveal(paired);
    assert forall|x: NodeId| #![trigger twin(ta, tb, x)] #![trigger m.s_get_b(x)] ta.s_has(x) && anc(ta, a, x) && !in_op(ta, x) implies m.s_get_b(x) == Some(twin(ta, tb, x)) by {
        if x != a {
            reveal(trees);
            let j = below_child(ta, a, x);
            assert(paired(ta, tb, m, ta.s_children(a)[j]));
        }
    }
}
/// Frames add up.
pub proof fn frame_more<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: &Matching, m1: &Matching, m2: &Matching, a: NodeId, b: NodeId, c: NodeId, d: NodeId)
    requires frame(ta, tb, m0, m1, a, b), frame(ta, tb, m1, m2, c, d), ta.s_parent(c) == Some(a), tb.s_parent(d) == Some(b)
    ensures frame(ta, tb, m0, m2, a, b)
{
    reveal(frame);
    assert forall|x: NodeId| #![trigger m2.s_get_b(x)] ta.s_has(x) && m2.s_get_b(x) != m0.s_get_b(x) implies anc(ta, a, x) by {
        if m1.s_get_b(x) == m0.s_get_b(x) { through(ta, a, c, x); }
    }
    assert forall|y: NodeId| #![trigger m2.s_get_a(y)] tb.s_has(y) && m2.s_get_a(y) != m0.s_get_a(y) implies anc(tb, b, y) by {
        if m1.s_get_a(y) == m0.s_get_a(y) { through(tb, b, d, y); }
    }
}
/// Two identical trees, the first at least as tall as the configured minimum.
pub open spec fn same_tall<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, min: usize) -> bool {
    same(ta, tb) && ta.s_height(ta.s_root()) >= min
}
/// At the roots: nothing matched yet.
pub proof fn fresh_root<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching)
    requires trees(ta, tb), m.wf(), m.pairs@.len() == 0
    ensures fresh(ta, tb, m, ta.s_root())
{
    reveal(fresh);
    assert forall|x: NodeId| #![trigger twin(ta, tb, x)] #![trigger m.s_get_b(x)] ta.s_has(x) && anc(ta, ta.s_root(), x) implies m.s_get_b(x) is None && m.s_get_a(twin(ta, tb, x)) is None by {
        if m.s_get_b(x) is Some { assert(m.a_to_b@[x.ix()] is Some); }
        let y = twin(ta, tb, x);
        if m.s_get_a(y) is Some { assert(m.b_to_a@[y.ix()] is Some); }
    }
}
/// Pairs are kept.
pub proof fn paired_grew<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: &Matching, m1: &Matching, a: NodeId)
    requires paired(ta, tb, m0, a), grew(*m0, *m1)
    ensures paired(ta, tb, m1, a)
{
    reveal(paired);
}

} // verus!
}
