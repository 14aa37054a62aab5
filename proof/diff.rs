// diff_trees: matching and edit script together.
pub mod diff {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe::*;
use crate::replay::*;
use crate::matching_spec::*;
use crate::same_spec::*;
use crate::matching::*;
verus! {

/// The script never deletes, inserts or moves a root.
pub open spec fn root_safe<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, ops: Seq<EditOp<TA::Types>>) -> bool {
    forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() ==> {
        &&& is_del(ops[k]) ==> node_a(ops[k]) != ta.s_root()
        &&& is_ins(ops[k]) ==> node_b(ops[k]) != tb.s_root()
        &&& is_mov(ops[k]) ==> node_a(ops[k]) != ta.s_root() && node_b(ops[k]) != tb.s_root()
    }
}
pub open spec fn no_opaque<T: DiffTree>(t: &T) -> bool { forall|x: NodeId| t.s_has(x) ==> !#[trigger] t.s_is_opaque(x) }
/// Nodes of the same kind agree on carrying text.
pub open spec fn text_by_kind<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB) -> bool {
    forall|a: NodeId, b: NodeId| #![trigger ta.s_text(a), tb.s_text(b)] ta.s_has(a) && tb.s_has(b) && *ta.s_kind(a) == *tb.s_kind(b) ==>
        (ta.s_text(a) is Some <==> tb.s_text(b) is Some)
}
pub open spec fn plain<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, thr: f64) -> bool {
    roots_alike(ta, tb, thr) && no_opaque(ta) && no_opaque(tb) && faithful(ta, tb) && text_by_kind(ta, tb)
}
/// ASSUMED(Properties implementations): a property list does not differ from itself.
pub open spec fn props_self_ok<P: Properties>() -> bool {
    forall|p: P, i: int| 0 <= i < (p.s_diff(&p)).len() ==> !((#[trigger] p.s_diff(&p)[i]).value is Different)
}
/// Everything promised about a script and the matching behind it.
pub open spec fn diff_ok<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, config: &MatchingConfig, m: &Matching, ops: Seq<EditOp<TA::Types>>) -> bool {
    &&& st(ta, tb, m) && st_op(ta, tb, m) && st_kind(ta, tb, m) && st_thr(ta, tb, config.similarity_threshold, m)
    &&& script_all(ta, tb, m, ops) && script_opaque(ta, tb, ops)
}
pub open spec fn roots_kept<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, thr: f64, m: &Matching, ops: Seq<EditOp<TA::Types>>) -> bool {
    &&& roots_alike(ta, tb, thr) ==> m.s_get_b(ta.s_root()) == Some(tb.s_root()) && root_safe(ta, tb, ops)
    &&& plain(ta, tb, thr) ==> replays(ta, tb, m, ops)
}

proof fn safe_roots<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires trees(ta, tb), st(ta, tb, m), m.s_get_b(ta.s_root()) == Some(tb.s_root()), script_all(ta, tb, m, ops)
    ensures root_safe(ta, tb, ops)
{
    laws_here(ta, tb);
    partner_of_a(ta, tb, m, ta.s_root());
    assert forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() implies {
        &&& is_del(ops[k]) ==> node_a(ops[k]) != ta.s_root()
        &&& is_ins(ops[k]) ==> node_b(ops[k]) != tb.s_root()
        &&& is_mov(ops[k]) ==> node_a(ops[k]) != ta.s_root() && node_b(ops[k]) != tb.s_root()
    } by {
        if is_del(ops[k]) { assert(want_del(ta, m, node_a(ops[k]))); }
        if is_ins(ops[k]) { assert(want_ins(tb, m, node_b(ops[k]))); }
        if is_mov(ops[k]) { assert(want_mov(ta, tb, m, node_a(ops[k]), node_b(ops[k]))); }
    }
}
proof fn plain_fit<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching)
    requires trees(ta, tb), st(ta, tb, m), st_kind(ta, tb, m), m.s_get_b(ta.s_root()) == Some(tb.s_root()),
        no_opaque(ta), no_opaque(tb), faithful(ta, tb), text_by_kind(ta, tb),
    ensures fit(ta, tb, m)
{
    reveal(fit); reveal(trees); reveal(st); reveal(st_kind);
    assert forall|a: NodeId, b: NodeId| #![trigger ta.s_has(a), tb.s_has(b)] ta.s_has(a) && m.s_get_b(a) == Some(b) implies
            *ta.s_kind(a) == *tb.s_kind(b) && (ta.s_text(a) is Some <==> tb.s_text(b) is Some) && (in_op(ta, a) <==> in_op(tb, b)) by {
        lemma_pair_of(ta, tb, m, a, b);
        let k = choose|k: int| 0 <= k < m.pairs@.len() && m.pairs@[k] == (a, b);
        assert(same_kind(ta, tb, m.pairs@[k].0, m.pairs@[k].1));
        assert(!in_op(ta, a));
        assert(!in_op(tb, b));
    }
}
proof fn under_root<T: DiffTree>(t: &T, x: NodeId)
    requires tree_ok(t), t.s_has(x)
    ensures anc(t, t.s_root(), x)
    decreases usize::MAX - t.s_height(x)
{
    if x == t.s_root() { lemma_anc_refl(t, x); } else {
        let p = t.s_parent(x)->0;
        assert(t.s_height(x) < t.s_height(p));
        under_root(t, p);
        lemma_anc_step(t, t.s_root(), x);
    }
}
/// Identical trees leave nothing to do.
proof fn nothing_to_do<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires trees(ta, tb), st(ta, tb, m), same(ta, tb), paired(ta, tb, m, ta.s_root()), script_all(ta, tb, m, ops),
        props_len_ok::<<TA::Types as TreeTypes>::Props>(), props_self_ok::<<TA::Types as TreeTypes>::Props>(),
    ensures ops.len() == 0
{
    if ops.len() > 0 {
        reveal(paired); reveal(trees);
        let op = ops[0];
        match op {
            EditOp::Insert { node_b: b, parent_b, position, kind } => {
                assert(is_ins(op) && want_ins(tb, m, b));
                let x = twin_onto(ta, tb, b);
                twin_op(ta, tb, x);
                under_root(ta, x);
                partner_of_a(ta, tb, m, x);
            }
            EditOp::Delete { node_a: a } => {
                assert(is_del(op) && want_del(ta, m, a));
                under_root(ta, a);
                assert(m.s_get_b(a) == Some(twin(ta, tb, a)));
            }
            EditOp::Move { node_a: a, node_b: b, new_parent_b, new_position } => {
                assert(is_mov(op) && want_mov(ta, tb, m, a, b));
                under_root(ta, a);
                assert(b == twin(ta, tb, a));
                twin_place(ta, tb, a);
                let p = ta.s_parent(a)->0;
                lemma_in_op_step(ta, a);
                under_root(ta, p);
                assert(m.s_get_b(p) == Some(twin(ta, tb, p)));
            }
            EditOp::SetText { node_a: a, node_b: b, text } => {
                assert(is_txt(op) && want_txt(ta, tb, m, a, b));
                under_root(ta, a);
                assert(b == twin(ta, tb, a));
                twin_of(ta, tb, a);
            }
            EditOp::UpdateProperties { node_a: a, node_b: b, changes } => {
                assert(is_upd(op) && want_upd(ta, tb, m, a, b));
                under_root(ta, a);
                assert(b == twin(ta, tb, a));
                twin_of(ta, tb, a);
                let p = *ta.s_properties(a);
                assert(p == *tb.s_properties(b));
                assert(p.s_diff(&p).len() == p.s_len());
                let i = choose|i: int| 0 <= i < p.s_diff(&p).len() && (#[trigger] p.s_diff(&p)[i]).value is Different;
            }
        }
    }
}
/// Every consequence at once.
pub proof fn diff_done<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, config: &MatchingConfig, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires trees(ta, tb), diff_ok(ta, tb, config, m, ops), props_len_ok::<<TA::Types as TreeTypes>::Props>(),
        root_done(ta, tb, config.similarity_threshold, m),
        same_tall(ta, tb, config.min_height) ==> paired(ta, tb, m, ta.s_root()),
    ensures roots_kept(ta, tb, config.similarity_threshold, m, ops),
        same_tall(ta, tb, config.min_height) && props_self_ok::<<TA::Types as TreeTypes>::Props>() ==> ops.len() == 0,
{
    if roots_alike(ta, tb, config.similarity_threshold) { safe_roots(ta, tb, m, ops); }
    if plain(ta, tb, config.similarity_threshold) {
        plain_fit(ta, tb, m);
        reveal(trees); reveal(st);
        replay_all(ta, tb, m, ops);
    }
    if same_tall(ta, tb, config.min_height) && props_self_ok::<<TA::Types as TreeTypes>::Props>() { nothing_to_do(ta, tb, m, ops); }
}

//@fn diff_trees_with_matching loops=0
//@params tree_a tree_b config
//@var matching 0 compute_matching
//@spec
    requires
        tree_ok(tree_a), tree_ok(tree_b), tree_a.s_rooted(), tree_b.s_rooted(),
        props_len_ok::<<T::Types as TreeTypes>::Props>(),
    ensures
        diff_ok(tree_a, tree_b, config, &r.1, r.0@), // @C01 @C02 @C03 @C04 @C05 @C06 @C07 @C10
        roots_kept(tree_a, tree_b, config.similarity_threshold, &r.1, r.0@), // @C14 @C08
        same_tall(tree_a, tree_b, config.min_height) ==> paired(tree_a, tree_b, &r.1, tree_a.s_root()), // @C09
        same_tall(tree_a, tree_b, config.min_height) && props_self_ok::<<T::Types as TreeTypes>::Props>() ==> r.0@.len() == 0, // @C09
//@start
    proof { reveal(trees); reveal(st); }
//@after generate_edit_script 0
    proof { diff_done(tree_a, tree_b, config, &matching, ops@); }
//@end

//@fn diff_trees loops=0
//@params tree_a tree_b config
//@spec
    requires
        tree_ok(tree_a), tree_ok(tree_b), tree_a.s_rooted(), tree_b.s_rooted(),
        props_len_ok::<<T::Types as TreeTypes>::Props>(),
    ensures
        exists|m: Matching| #[trigger] diff_ok(tree_a, tree_b, config, &m, r@) // @C04 @C05 @C06 @C07 @C10
            && roots_kept(tree_a, tree_b, config.similarity_threshold, &m, r@), // @C14 @C08
        same_tall(tree_a, tree_b, config.min_height) && props_self_ok::<<T::Types as TreeTypes>::Props>() ==> r@.len() == 0, // @C09
//@end

} // verus!
}
