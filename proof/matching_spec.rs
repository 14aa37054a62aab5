// What the computed matching promises, and the steps that keep it.
pub mod matching_spec {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
verus! {

// ---------------------------------------------------------------- the promises
/// Equal hashes mean equal subtrees: same kind, same number of children, and children that
/// carry pairwise equal hashes again.
#[verifier::opaque]
pub open spec fn faithful<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB) -> bool {
    forall|a: NodeId, b: NodeId| #![trigger ta.s_hash(a), tb.s_hash(b)] ta.s_has(a) && tb.s_has(b) && ta.s_hash(a) == tb.s_hash(b) ==> {
        &&& *ta.s_kind(a) == *tb.s_kind(b)
        &&& ta.s_children(a).len() == tb.s_children(b).len()
        &&& forall|i: int| #![trigger ta.s_children(a)[i]] 0 <= i < ta.s_children(a).len() ==> ta.s_hash(ta.s_children(a)[i]) == tb.s_hash(tb.s_children(b)[i])
    }
}
pub open spec fn same_kind<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, a: NodeId, b: NodeId) -> bool {
    *ta.s_kind(a) == *tb.s_kind(b)
}
/// The pair is one the threshold allows.
pub open spec fn alike<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, thr: f64, a: NodeId, b: NodeId) -> bool {
    ||| ta.s_hash(a) == tb.s_hash(b)
    ||| ta.s_is_opaque(a)
    ||| tb.s_is_opaque(b)
    ||| !s_lt(ta.s_properties(a).s_similarity(tb.s_properties(b)), thr)
}
/// The roots have the same kind and their similarity reaches the threshold.
pub open spec fn roots_alike<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, thr: f64) -> bool {
    same_kind(ta, tb, ta.s_root(), tb.s_root())
    && s_ge(ta.s_properties(ta.s_root()).s_similarity(tb.s_properties(tb.s_root())), thr)
}

// the state of a matching under construction, one predicate per property
#[verifier::opaque]
pub open spec fn st_kind<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching) -> bool {
    faithful(ta, tb) ==> forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() ==> same_kind(ta, tb, m.pairs@[k].0, m.pairs@[k].1)
}
#[verifier::opaque]
pub open spec fn st_thr<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, thr: f64, m: &Matching) -> bool {
    faithful(ta, tb) ==> forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() ==> alike(ta, tb, thr, m.pairs@[k].0, m.pairs@[k].1)
}
#[verifier::opaque]
pub open spec fn st_op<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching) -> bool {
    forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() ==> atomic(ta, tb, m, m.pairs@[k].0, m.pairs@[k].1)
}
/// Only the roots are paired with roots.
#[verifier::opaque]
pub open spec fn st_root<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching) -> bool {
    forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() ==> (m.pairs@[k].0 == ta.s_root() <==> m.pairs@[k].1 == tb.s_root())
}
/// The two roots are partners if they are alike.
pub open spec fn root_done<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, thr: f64, m: &Matching) -> bool {
    roots_alike(ta, tb, thr) ==> m.s_get_b(ta.s_root()) == Some(tb.s_root())
}
/// Both trees keep their laws (folded).
#[verifier::opaque]
pub open spec fn trees<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB) -> bool { tree_ok(ta) && tree_ok(tb) && ta.s_rooted() }
/// One-to-one, between the two trees (folded).
#[verifier::opaque]
pub open spec fn st<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching) -> bool { m_ok(ta, tb, m) }

// ---------------------------------------------------------------- adding one pair
/// `m1` is `m0` with the pair (a, b): what `Matching::add` promises.
pub open spec fn added(m0: Matching, m1: Matching, a: NodeId, b: NodeId) -> bool {
    &&& m1.pairs@ == m0.pairs@.push((a, b))
    &&& forall|x: NodeId| #[trigger] m1.s_get_b(x) == (if x.ix() == a.ix() { Some(b) } else { m0.s_get_b(x) })
    &&& forall|x: NodeId| #[trigger] m1.s_get_a(x) == (if x.ix() == b.ix() { Some(a) } else { m0.s_get_a(x) })
    &&& m0.wf() && !m0.s_contains_a(a) && !m0.s_contains_b(b) ==> m1.wf()
}
/// `m1` extends `m0`.
pub open spec fn grew(m0: Matching, m1: Matching) -> bool {
    &&& forall|x: NodeId| #![trigger m1.s_get_b(x)] #![trigger m0.s_get_b(x)] m0.s_get_b(x) is Some ==> m1.s_get_b(x) == m0.s_get_b(x)
    &&& forall|x: NodeId| #![trigger m1.s_get_a(x)] #![trigger m0.s_get_a(x)] m0.s_get_a(x) is Some ==> m1.s_get_a(x) == m0.s_get_a(x)
}
pub proof fn add_st<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: Matching, m1: Matching, a: NodeId, b: NodeId)
    requires trees(ta, tb), st(ta, tb, &m0), added(m0, m1, a, b), ta.s_has(a), tb.s_has(b), !m0.s_contains_a(a), !m0.s_contains_b(b)
    ensures st(ta, tb, &m1), grew(m0, m1), m1.s_get_b(a) == Some(b), m1.s_get_a(b) == Some(a),
        forall|x: NodeId| ta.s_has(x) && x != a ==> #[trigger] m1.s_get_b(x) == m0.s_get_b(x),
        forall|x: NodeId| tb.s_has(x) && x != b ==> #[trigger] m1.s_get_a(x) == m0.s_get_a(x),
{
    reveal(trees);
    reveal(st);
    let n = m0.pairs@.len() as int;
    assert forall|k: int| #![trigger m1.pairs@[k]] 0 <= k < m1.pairs@.len() implies ta.s_has(m1.pairs@[k].0) && tb.s_has(m1.pairs@[k].1) by {
        if k < n { assert(m1.pairs@[k] == m0.pairs@[k]); }
    }
}
pub proof fn add_kind<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: Matching, m1: Matching, a: NodeId, b: NodeId)
    requires st_kind(ta, tb, &m0), m1.pairs@ == m0.pairs@.push((a, b)), faithful(ta, tb) ==> same_kind(ta, tb, a, b)
    ensures st_kind(ta, tb, &m1)
{
    reveal(st_kind);
    if faithful(ta, tb) {
        assert forall|k: int| #![trigger m1.pairs@[k]] 0 <= k < m1.pairs@.len() implies same_kind(ta, tb, m1.pairs@[k].0, m1.pairs@[k].1) by {
            if k < m0.pairs@.len() { assert(m1.pairs@[k] == m0.pairs@[k]); }
        }
    }
}
pub proof fn add_thr<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, thr: f64, m0: Matching, m1: Matching, a: NodeId, b: NodeId)
    requires st_thr(ta, tb, thr, &m0), m1.pairs@ == m0.pairs@.push((a, b)), faithful(ta, tb) ==> alike(ta, tb, thr, a, b)
    ensures st_thr(ta, tb, thr, &m1)
{
    reveal(st_thr);
    if faithful(ta, tb) {
        assert forall|k: int| #![trigger m1.pairs@[k]] 0 <= k < m1.pairs@.len() implies alike(ta, tb, thr, m1.pairs@[k].0, m1.pairs@[k].1) by {
            if k < m0.pairs@.len() { assert(m1.pairs@[k] == m0.pairs@[k]); }
        }
    }
}
pub proof fn add_op<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: Matching, m1: Matching, a: NodeId, b: NodeId)
    requires st_op(ta, tb, &m0), m1.pairs@ == m0.pairs@.push((a, b)), grew(m0, m1), atomic(ta, tb, &m1, a, b)
    ensures st_op(ta, tb, &m1)
{
    reveal(st_op);
    assert forall|k: int| #![trigger m1.pairs@[k]] 0 <= k < m1.pairs@.len() implies atomic(ta, tb, &m1, m1.pairs@[k].0, m1.pairs@[k].1) by {
        if k < m0.pairs@.len() {
            assert(m1.pairs@[k] == m0.pairs@[k]);
            assert(atomic(ta, tb, &m0, m0.pairs@[k].0, m0.pairs@[k].1));
        }
    }
}
pub proof fn add_root<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m0: Matching, m1: Matching, a: NodeId, b: NodeId)
    requires st_root(ta, tb, &m0), m1.pairs@ == m0.pairs@.push((a, b)), a == ta.s_root() <==> b == tb.s_root()
    ensures st_root(ta, tb, &m1)
{
    reveal(st_root);
    assert forall|k: int| #![trigger m1.pairs@[k]] 0 <= k < m1.pairs@.len() implies (m1.pairs@[k].0 == ta.s_root() <==> m1.pairs@[k].1 == tb.s_root()) by {
        if k < m0.pairs@.len() { assert(m1.pairs@[k] == m0.pairs@[k]); }
    }
}
/// The empty matching keeps every promise.
pub proof fn start_all<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, thr: f64, m: Matching)
    requires m.wf(), m.pairs@.len() == 0
    ensures st(ta, tb, &m), st_kind(ta, tb, &m), st_thr(ta, tb, thr, &m), st_op(ta, tb, &m), st_root(ta, tb, &m)
{
    reveal(st); reveal(st_kind); reveal(st_thr); reveal(st_op); reveal(st_root);
}

// ---------------------------------------------------------------- what the code may rely on
pub proof fn laws_here<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB)
    requires trees(ta, tb)
    ensures ta.inv(), tb.inv(), ta.s_rooted(), types_ok::<TA::Types>(), ta.s_has(ta.s_root()), tb.s_has(tb.s_root()),
        forall|i: int| 0 <= i < ta.s_iter().len() ==> ta.s_has(#[trigger] ta.s_iter()[i]),
        forall|i: int| 0 <= i < tb.s_iter().len() ==> tb.s_has(#[trigger] tb.s_iter()[i]),
        !in_op(ta, ta.s_root()), !in_op(tb, tb.s_root()),
        ta.s_parent(ta.s_root()) is None, tb.s_parent(tb.s_root()) is None,
        ta.s_iter().len() > 0, ta.s_iter()[0] == ta.s_root(), ta.s_iter().no_duplicates(),
{
    reveal(trees);
    lemma_in_op_step(ta, ta.s_root());
    lemma_in_op_step(tb, tb.s_root());
    lemma_iter_first(ta);
}
/// A node and its children.
pub proof fn kids<T: DiffTree>(t: &T, a: NodeId)
    requires tree_ok(t), t.s_has(a)
    ensures
        forall|i: int| #![trigger t.s_children(a)[i]] 0 <= i < t.s_children(a).len() ==> t.s_has(t.s_children(a)[i])
            && t.s_parent(t.s_children(a)[i]) == Some(a)
            && t.s_children(a)[i] != t.s_root()
            && t.s_height(t.s_children(a)[i]) < t.s_height(a)
            && anc(t, a, t.s_children(a)[i])
            && in_op(t, t.s_children(a)[i]) == (t.s_is_opaque(a) || in_op(t, a)),
        t.s_child_count(a) == t.s_children(a).len(),
        t.s_height(a) == 0 ==> t.s_children(a).len() == 0,
{
    assert forall|i: int| #![trigger t.s_children(a)[i]] 0 <= i < t.s_children(a).len() implies t.s_has(t.s_children(a)[i])
            && t.s_parent(t.s_children(a)[i]) == Some(a)
            && t.s_children(a)[i] != t.s_root()
            && t.s_height(t.s_children(a)[i]) < t.s_height(a)
            && anc(t, a, t.s_children(a)[i])
            && in_op(t, t.s_children(a)[i]) == (t.s_is_opaque(a) || in_op(t, a)) by {
        let c = t.s_children(a)[i];
        assert(t.s_has(c) && t.s_parent(c) == Some(a));
        lemma_anc_refl(t, a);
        lemma_anc_step(t, a, c);
        lemma_in_op_step(t, c);
    }
}
pub proof fn kids_a<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, a: NodeId)
    requires trees(ta, tb), ta.s_has(a)
    ensures
        forall|i: int| #![trigger ta.s_children(a)[i]] 0 <= i < ta.s_children(a).len() ==> ta.s_has(ta.s_children(a)[i])
            && ta.s_parent(ta.s_children(a)[i]) == Some(a)
            && ta.s_children(a)[i] != ta.s_root()
            && ta.s_height(ta.s_children(a)[i]) < ta.s_height(a)
            && anc(ta, a, ta.s_children(a)[i])
            && in_op(ta, ta.s_children(a)[i]) == (ta.s_is_opaque(a) || in_op(ta, a)),
        ta.s_child_count(a) == ta.s_children(a).len(),
        ta.s_height(a) == 0 ==> ta.s_children(a).len() == 0,
{
    reveal(trees);
    kids(ta, a);
}
pub proof fn kids_b<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, b: NodeId)
    requires trees(ta, tb), tb.s_has(b)
    ensures
        forall|i: int| #![trigger tb.s_children(b)[i]] 0 <= i < tb.s_children(b).len() ==> tb.s_has(tb.s_children(b)[i])
            && tb.s_parent(tb.s_children(b)[i]) == Some(b)
            && tb.s_children(b)[i] != tb.s_root()
            && tb.s_height(tb.s_children(b)[i]) < tb.s_height(b)
            && anc(tb, b, tb.s_children(b)[i])
            && in_op(tb, tb.s_children(b)[i]) == (tb.s_is_opaque(b) || in_op(tb, b)),
        tb.s_child_count(b) == tb.s_children(b).len(),
        tb.s_height(b) == 0 ==> tb.s_children(b).len() == 0,
{
    reveal(trees);
    kids(tb, b);
}
pub proof fn parent_a<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, a: NodeId)
    requires trees(ta, tb), ta.s_has(a)
    ensures ta.s_parent(a) is Some ==> ta.s_has(ta.s_parent(a)->0), ta.s_parent(a) is None ==> a == ta.s_root()
{
    reveal(trees);
}
pub proof fn parent_b<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, b: NodeId)
    requires trees(ta, tb), tb.s_has(b)
    ensures tb.s_parent(b) is Some ==> tb.s_has(tb.s_parent(b)->0), tb.s_parent(b) is None ==> b == tb.s_root()
{
    reveal(trees);
}
/// Partners live in the trees and are mutual.
pub proof fn partner_of_a<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, a: NodeId)
    requires trees(ta, tb), st(ta, tb, m), ta.s_has(a)
    ensures m.s_get_b(a) is Some ==> tb.s_has(m.s_get_b(a)->0) && m.s_get_a(m.s_get_b(a)->0) == Some(a)
{
    reveal(trees);
    reveal(st);
    if m.s_get_b(a) is Some { lemma_pair_of(ta, tb, m, a, m.s_get_b(a)->0); }
}
pub proof fn partner_of_b<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, b: NodeId)
    requires trees(ta, tb), st(ta, tb, m), tb.s_has(b)
    ensures m.s_get_a(b) is Some ==> ta.s_has(m.s_get_a(b)->0) && m.s_get_b(m.s_get_a(b)->0) == Some(b)
{
    reveal(trees);
    reveal(st);
    if m.s_get_a(b) is Some { lemma_pair_of_b(ta, tb, m, m.s_get_a(b)->0, b); }
}
/// What lies outside the new tree has no partner.
pub proof fn nobody_outside<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching)
    requires trees(ta, tb), st(ta, tb, m)
    ensures forall|x: NodeId| #[trigger] tb.s_near(x) ==> m.s_get_a(x) is None
{
    reveal(trees);
    reveal(st);
    assert forall|x: NodeId| #[trigger] tb.s_near(x) implies m.s_get_a(x) is None by {
        let i = x.ix();
        if 0 <= i < m.b_to_a@.len() && m.b_to_a@[i] is Some {
            let k = choose|k: int| 0 <= k < m.pairs@.len() && (#[trigger] m.pairs@[k]).1.ix() == i && m.pairs@[k].0 == m.b_to_a@[i]->0;
            assert(tb.s_has(m.pairs@[k].1));
        }
    }
}
pub proof fn lemma_pair_of_b<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId)
    requires m_ok(ta, tb, m), law_shape(ta), law_shape(tb), tb.s_has(b), m.s_get_a(b) == Some(a)
    ensures m.pairs@.contains((a, b)), ta.s_has(a), m.s_get_b(a) == Some(b)
{
    let i = b.ix();
    assert(m.b_to_a@[i] is Some);
    let k = choose|k: int| 0 <= k < m.pairs@.len() && (#[trigger] m.pairs@[k]).1.ix() == i && m.pairs@[k].0 == m.b_to_a@[i]->0;
    assert(tb.s_has(m.pairs@[k].1));
    assert(m.pairs@[k].1.ix() == b.ix());
    assert(m.pairs@[k] == (a, b));
}
/// Children of nodes with equal hashes.
pub proof fn faithful_kids<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, a: NodeId, b: NodeId)
    requires ta.s_has(a), tb.s_has(b), ta.s_hash(a) == tb.s_hash(b)
    ensures faithful(ta, tb) ==> same_kind(ta, tb, a, b) && ta.s_children(a).len() == tb.s_children(b).len()
        && forall|i: int| #![trigger ta.s_children(a)[i]] 0 <= i < ta.s_children(a).len() ==> ta.s_hash(ta.s_children(a)[i]) == tb.s_hash(tb.s_children(b)[i])
{
    reveal(faithful);
}
pub proof fn desc_len<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, sa: Set<NodeId>, sb: Set<NodeId>, a: NodeId, b: NodeId)
    requires trees(ta, tb), ta.s_has(a), tb.s_has(b),
        forall|x: NodeId| #[trigger] sa.contains(x) <==> ta.s_descendants(a).contains(x),
        forall|x: NodeId| #[trigger] sb.contains(x) <==> tb.s_descendants(b).contains(x),
    ensures sa.len() + sb.len() <= usize::MAX
{
    reveal(trees);
    assert(sa.subset_of(ta.live()));
    assert(sb.subset_of(tb.live()));
    vstd::set_lib::lemma_len_subset(sa, ta.live());
    vstd::set_lib::lemma_len_subset(sb, tb.live());
}

// ---------------------------------------------------------------- the work list of the top-down phase
/// How much work a pair can still cause: itself and every pair below it.
pub open spec fn wt<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, f: nat, a: NodeId, b: NodeId) -> nat
    decreases f, 0int, 0nat
{
    if f == 0 { 1 } else { 1 + rows(ta, tb, (f - 1) as nat, ta.s_children(a), tb.s_children(b), ta.s_children(a).len()) }
}
pub open spec fn rows<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, f: nat, sa: Seq<NodeId>, sb: Seq<NodeId>, n: nat) -> nat
    decreases f, 2int, n
{
    if n == 0 { 0 } else { rows(ta, tb, f, sa, sb, (n - 1) as nat) + row(ta, tb, f, sa[n - 1], sb, sb.len()) }
}
pub open spec fn row<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, f: nat, a: NodeId, sb: Seq<NodeId>, n: nat) -> nat
    decreases f, 1int, n
{
    if n == 0 { 0 } else { row(ta, tb, f, a, sb, (n - 1) as nat) + wt(ta, tb, f, a, sb[n - 1]) }
}
pub proof fn lemma_wt_mono<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, f: nat, a: NodeId, b: NodeId)
    ensures wt(ta, tb, f, a, b) <= wt(ta, tb, f + 1, a, b)
    decreases f, 0int, 0nat
{
    if f > 0 {
        lemma_rows_mono(ta, tb, (f - 1) as nat, ta.s_children(a), tb.s_children(b), ta.s_children(a).len());
    }
}
proof fn lemma_rows_mono<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, f: nat, sa: Seq<NodeId>, sb: Seq<NodeId>, n: nat)
    ensures rows(ta, tb, f, sa, sb, n) <= rows(ta, tb, f + 1, sa, sb, n)
    decreases f, 2int, n
{
    if n > 0 {
        lemma_rows_mono(ta, tb, f, sa, sb, (n - 1) as nat);
        lemma_row_mono(ta, tb, f, sa[n - 1], sb, sb.len());
    }
}
proof fn lemma_row_mono<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, f: nat, a: NodeId, sb: Seq<NodeId>, n: nat)
    ensures row(ta, tb, f, a, sb, n) <= row(ta, tb, f + 1, a, sb, n)
    decreases f, 1int, n
{
    if n > 0 {
        lemma_row_mono(ta, tb, f, a, sb, (n - 1) as nat);
        lemma_wt_mono(ta, tb, f, a, sb[n - 1]);
    }
}
pub proof fn lemma_wt_le<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, f: nat, g: nat, a: NodeId, b: NodeId)
    requires f <= g
    ensures wt(ta, tb, f, a, b) <= wt(ta, tb, g, a, b)
    decreases g
{
    if f < g {
        lemma_wt_le(ta, tb, f, (g - 1) as nat, a, b);
        lemma_wt_mono(ta, tb, (g - 1) as nat, a, b);
    }
}
/// Work of one pair.
pub open spec fn work<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, p: (NodeId, NodeId)) -> nat {
    wt(ta, tb, ta.s_height(p.0) as nat, p.0, p.1)
}
/// Work of the whole list.
#[verifier::opaque]
pub open spec fn todo<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, s: Seq<(NodeId, NodeId)>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { todo(ta, tb, s.drop_last()) + work(ta, tb, s.last()) }
}
pub proof fn todo_push<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, s: Seq<(NodeId, NodeId)>, p: (NodeId, NodeId))
    ensures todo(ta, tb, s.push(p)) == todo(ta, tb, s) + work(ta, tb, p)
{
    reveal_with_fuel(todo, 2);
    assert(s.push(p).drop_last() =~= s);
}
pub proof fn todo_pop<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, s: Seq<(NodeId, NodeId)>, p: (NodeId, NodeId), s0: Seq<(NodeId, NodeId)>)
    requires s0 == s.push(p)
    ensures todo(ta, tb, s0) == todo(ta, tb, s) + work(ta, tb, p), work(ta, tb, p) >= 1,
        work(ta, tb, p) == (if ta.s_height(p.0) == 0 { 1 } else { 1 + rows(ta, tb, (ta.s_height(p.0) - 1) as nat, ta.s_children(p.0), tb.s_children(p.1), ta.s_children(p.0).len()) })
{
    todo_push(ta, tb, s, p);
}
/// Every candidate is a pair of nodes outside opaque nodes, and the roots go together.
#[verifier::opaque]
pub open spec fn cands<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, s: Seq<(NodeId, NodeId)>) -> bool {
    forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> cand(ta, tb, s[k])
}
pub open spec fn cand<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, p: (NodeId, NodeId)) -> bool {
    ta.s_has(p.0) && tb.s_has(p.1) && !in_op(ta, p.0) && !in_op(tb, p.1) && (p.0 == ta.s_root() <==> p.1 == tb.s_root())
}
pub proof fn cands_push<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, s: Seq<(NodeId, NodeId)>, p: (NodeId, NodeId))
    requires cands(ta, tb, s), cand(ta, tb, p)
    ensures cands(ta, tb, s.push(p))
{
    reveal(cands);
}
pub proof fn cands_pop<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, s: Seq<(NodeId, NodeId)>, p: (NodeId, NodeId), s0: Seq<(NodeId, NodeId)>)
    requires cands(ta, tb, s0), s0 == s.push(p)
    ensures cands(ta, tb, s), cand(ta, tb, p)
{
    reveal(cands);
    assert(s0[s.len() as int] == p);
    assert forall|k: int| #![trigger s[k]] 0 <= k < s.len() implies cand(ta, tb, s[k]) by { assert(s0[k] == s[k]); }
}
pub proof fn cands_one<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, s: Seq<(NodeId, NodeId)>)
    requires trees(ta, tb), s.len() == 1, s[0] == (ta.s_root(), tb.s_root())
    ensures cands(ta, tb, s)
{
    reveal(cands);
    laws_here(ta, tb);
}
pub proof fn sorted_one(s: Seq<(NodeId, NodeId)>, t: Seq<(NodeId, NodeId)>)
    requires s.len() == 1, t.to_multiset() == s.to_multiset(), t.len() == 1
    ensures t[0] == s[0]
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(t.contains(t[0]));
    assert(s.to_multiset().contains(t[0]));
    assert(s.contains(t[0]));
}

// ---------------------------------------------------------------- the by-kind index
/// Listed under a kind: nodes of that kind outside opaque nodes.
#[verifier::opaque]
pub open spec fn by_kind<T: DiffTree>(t: &T, m: Map<<T::Types as TreeTypes>::Kind, Vec<NodeId>>) -> bool {
    forall|k: <T::Types as TreeTypes>::Kind, i: int| #![trigger bucket(m, k)[i]] 0 <= i < bucket(m, k).len() ==>
        t.s_has(bucket(m, k)[i]) && *t.s_kind(bucket(m, k)[i]) == k && !in_op(t, bucket(m, k)[i])
}

pub proof fn by_kind_push<T: DiffTree>(t: &T, m0: Map<<T::Types as TreeTypes>::Kind, Vec<NodeId>>, m1: Map<<T::Types as TreeTypes>::Kind, Vec<NodeId>>, k: <T::Types as TreeTypes>::Kind, b: NodeId)
    requires by_kind(t, m0), t.s_has(b), *t.s_kind(b) == k, !in_op(t, b),
        bucket(m1, k) == bucket(m0, k).push(b),
        forall|j: <T::Types as TreeTypes>::Kind| j != k ==> #[trigger] bucket(m1, j) == bucket(m0, j),
    ensures by_kind(t, m1)
{
    reveal(by_kind);
    assert forall|j: <T::Types as TreeTypes>::Kind, i: int| #![trigger bucket(m1, j)[i]] 0 <= i < bucket(m1, j).len() implies
        t.s_has(bucket(m1, j)[i]) && *t.s_kind(bucket(m1, j)[i]) == j && !in_op(t, bucket(m1, j)[i]) by {
        if j == k {
            if i < bucket(m0, k).len() { assert(bucket(m1, k)[i] == bucket(m0, k)[i]); }
        } else {
            assert(bucket(m1, j)[i] == bucket(m0, j)[i]);
        }
    }
}
pub proof fn by_kind_get<T: DiffTree>(t: &T, m: Map<<T::Types as TreeTypes>::Kind, Vec<NodeId>>, k: <T::Types as TreeTypes>::Kind)
    requires by_kind(t, m)
    ensures forall|i: int| #![trigger bucket(m, k)[i]] 0 <= i < bucket(m, k).len() ==>
        t.s_has(bucket(m, k)[i]) && *t.s_kind(bucket(m, k)[i]) == k && !in_op(t, bucket(m, k)[i])
{
    reveal(by_kind);
}
pub proof fn by_kind_empty<T: DiffTree>(t: &T, m: Map<<T::Types as TreeTypes>::Kind, Vec<NodeId>>)
    requires m == Map::<<T::Types as TreeTypes>::Kind, Vec<NodeId>>::empty()
    ensures by_kind(t, m)
{
    reveal(by_kind);
}

pub proof fn op_done_a<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, s: Set<NodeId>)
    requires trees(ta, tb), op_set(ta, s, ta.s_iter(), ta.s_iter().len() as int)
    ensures op_exact(ta, s)
{
    reveal(trees);
    lemma_op_set_done(ta, s);
}
pub proof fn op_done_b<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, s: Set<NodeId>)
    requires trees(ta, tb), op_set(tb, s, tb.s_iter(), tb.s_iter().len() as int)
    ensures op_exact(tb, s)
{
    reveal(trees);
    lemma_op_set_done(tb, s);
}

// ---------------------------------------------------------------- the roots
/// While only roots are paired with roots: a paired root has the other root as its partner.
pub proof fn root_in<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching)
    requires trees(ta, tb), st(ta, tb, m), st_root(ta, tb, m)
    ensures m.s_contains_a(ta.s_root()) ==> m.s_get_b(ta.s_root()) == Some(tb.s_root()),
        m.s_contains_b(tb.s_root()) ==> m.s_get_b(ta.s_root()) == Some(tb.s_root()),
{
    reveal(trees); reveal(st); reveal(st_root);
    if m.s_contains_a(ta.s_root()) {
        let b = m.s_get_b(ta.s_root())->0;
        lemma_pair_of(ta, tb, m, ta.s_root(), b);
        let k = choose|k: int| 0 <= k < m.pairs@.len() && m.pairs@[k] == (ta.s_root(), b);
        assert(m.pairs@[k].0 == ta.s_root());
    }
    if m.s_contains_b(tb.s_root()) {
        let a = m.s_get_a(tb.s_root())->0;
        lemma_pair_of_b(ta, tb, m, a, tb.s_root());
        let k = choose|k: int| 0 <= k < m.pairs@.len() && m.pairs@[k] == (a, tb.s_root());
        assert(m.pairs@[k].1 == tb.s_root());
    }
}
/// A floating-point number that is not below the threshold.
pub proof fn ge_not_lt(x: f64, y: f64)
    ensures s_ge(x, y) ==> !s_lt(x, y)
{
}

} // verus!
}
