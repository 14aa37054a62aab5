// Matchings between two trees, and the sets of nodes inside opaque nodes.
pub mod pairs_spec {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
verus! {

/// A one-to-one matching between the two trees.
pub open spec fn m_ok<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching) -> bool {
    &&& m.wf()
    &&& forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() ==> ta.s_has(m.pairs@[k].0) && tb.s_has(m.pairs@[k].1)
}
pub proof fn lemma_pair_of<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId)
    requires m_ok(ta, tb, m), law_shape(ta), law_shape(tb), ta.s_has(a), m.s_get_b(a) == Some(b)
    ensures m.pairs@.contains((a, b)), tb.s_has(b), m.s_get_a(b) == Some(a)
{
    let i = a.ix();
    assert(m.a_to_b@[i] is Some);
    let k = choose|k: int| 0 <= k < m.pairs@.len() && (#[trigger] m.pairs@[k]).0.ix() == i && m.pairs@[k].1 == m.a_to_b@[i]->0;
    assert(ta.s_has(m.pairs@[k].0));
    assert(m.pairs@[k].0.ix() == a.ix());
    assert(m.pairs@[k] == (a, b));
}
pub proof fn lemma_pairs_nodup(m: &Matching)
    requires m.wf()
    ensures m.pairs@.no_duplicates()
{
    let s = m.pairs@;
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if i < j { assert(s[i].0.ix() != s[j].0.ix()); } else { assert(s[j].0.ix() != s[i].0.ix()); }
    }
}
/// Two matched pairs with the same old node are the same pair.
pub proof fn lemma_pairs_unique<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, x: (NodeId, NodeId), y: (NodeId, NodeId))
    requires m_ok(ta, tb, m), m.pairs@.contains(x), m.pairs@.contains(y), x.0 == y.0
    ensures x == y
{
    let s = m.pairs@;
    let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
    let j = choose|j: int| 0 <= j < s.len() && s[j] == y;
    assert(m.s_get_b(s[i].0) == Some(s[i].1));
    assert(m.s_get_b(s[j].0) == Some(s[j].1));
}

pub open spec fn parents_paired<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId) -> bool {
    ta.s_parent(a) is Some && tb.s_parent(b) is Some && m.s_get_b(ta.s_parent(a)->0) == Some(tb.s_parent(b)->0)
}
/// The pair respects opaque nodes.
pub open spec fn atomic<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId) -> bool {
    !in_op(ta, a) && (in_op(tb, b) ==> parents_paired(ta, tb, m, a, b))
}

// ---------------------------------------------------------------- sets of opaque descendants
/// What the sets built at the start hold after `i` nodes of the traversal.
pub open spec fn op_set<T: DiffTree>(t: &T, s: Set<NodeId>, it: Seq<NodeId>, i: int) -> bool {
    forall|y: NodeId| #[trigger] s.contains(y) <==> exists|j: int| 0 <= j < i && t.s_is_opaque(#[trigger] it[j]) && y != it[j] && t.s_descendants(it[j]).contains(y)
}
/// .. and inside the loop over the descendants of `it[i]`.
pub open spec fn op_set_in<T: DiffTree>(t: &T, s: Set<NodeId>, s0: Set<NodeId>, o: NodeId, d: Seq<NodeId>, j: int) -> bool {
    forall|y: NodeId| #[trigger] s.contains(y) <==> s0.contains(y) || (y != o && exists|k: int| 0 <= k < j && #[trigger] d[k] == y)
}
pub proof fn lemma_op_set_done<T: DiffTree>(t: &T, s: Set<NodeId>)
    requires op_set(t, s, t.s_iter(), t.s_iter().len() as int), law_shape(t), law_iter(t), law_desc(t), law_height(t)
    ensures forall|y: NodeId| #[trigger] s.contains(y) <==> t.s_has(y) && in_op(t, y)
{
    let it = t.s_iter();
    assert forall|y: NodeId| #[trigger] s.contains(y) <==> t.s_has(y) && in_op(t, y) by {
        if s.contains(y) {
            let j = choose|j: int| 0 <= j < it.len() && t.s_is_opaque(#[trigger] it[j]) && y != it[j] && t.s_descendants(it[j]).contains(y);
            assert(t.s_has(it[j]));
        }
        if t.s_has(y) && in_op(t, y) {
            let o = choose|o: NodeId| #[trigger] t.s_has(o) && t.s_is_opaque(o) && o != y && anc(t, o, y);
            assert(it.contains(o));
            let j = choose|j: int| 0 <= j < it.len() && it[j] == o;
            assert(t.s_is_opaque(it[j]) && y != it[j] && t.s_descendants(it[j]).contains(y));
        }
    }
}
pub proof fn lemma_op_set_step<T: DiffTree>(t: &T, s: Set<NodeId>, s0: Set<NodeId>, it: Seq<NodeId>, i: int, d: Seq<NodeId>)
    requires 0 <= i < it.len(), op_set(t, s0, it, i),
        t.s_is_opaque(it[i]) ==> d == t.s_descendants(it[i]) && op_set_in(t, s, s0, it[i], d, d.len() as int),
        !t.s_is_opaque(it[i]) ==> s == s0,
    ensures op_set(t, s, it, i + 1)
{
    assert forall|y: NodeId| #[trigger] s.contains(y) <==> exists|j: int| 0 <= j < i + 1 && t.s_is_opaque(#[trigger] it[j]) && y != it[j] && t.s_descendants(it[j]).contains(y) by {
        if s.contains(y) {
            if s0.contains(y) {
                let j = choose|j: int| 0 <= j < i && t.s_is_opaque(#[trigger] it[j]) && y != it[j] && t.s_descendants(it[j]).contains(y);
                assert(0 <= j < i + 1);
            } else {
                assert(t.s_is_opaque(it[i]));
                let k = choose|k: int| 0 <= k < d.len() && #[trigger] d[k] == y;
                assert(t.s_descendants(it[i]).contains(y));
            }
        }
        if exists|j: int| 0 <= j < i + 1 && t.s_is_opaque(#[trigger] it[j]) && y != it[j] && t.s_descendants(it[j]).contains(y) {
            let j = choose|j: int| 0 <= j < i + 1 && t.s_is_opaque(#[trigger] it[j]) && y != it[j] && t.s_descendants(it[j]).contains(y);
            if j < i {
                assert(s0.contains(y));
            } else {
                let k = choose|k: int| 0 <= k < d.len() && d[k] == y;
                assert(d[k] == y);
            }
        }
    }
}

/// One node of the traversal handled.
pub proof fn op_set_grow<T: DiffTree>(t: &T, s: Set<NodeId>, s0: Set<NodeId>, it: Seq<NodeId>, i: int)
    requires 0 <= i < it.len(), op_set(t, s0, it, i),
        t.s_is_opaque(it[i]) ==> op_set_in(t, s, s0, it[i], t.s_descendants(it[i]), t.s_descendants(it[i]).len() as int),
        !t.s_is_opaque(it[i]) ==> s == s0,
    ensures op_set(t, s, it, i + 1)
{
    lemma_op_set_step(t, s, s0, it, i, t.s_descendants(it[i]));
}

/// A set holds exactly the nodes strictly inside opaque nodes.
pub open spec fn op_exact<T: DiffTree>(t: &T, s: Set<NodeId>) -> bool {
    forall|y: NodeId| t.s_has(y) ==> (#[trigger] s.contains(y) <==> in_op(t, y))
}

} // verus!
}
