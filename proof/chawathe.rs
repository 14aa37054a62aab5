// generate_edit_script: the edit script's contract, stated per operation.
pub mod chawathe {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::replay::*;
pub use crate::chawathe_spec::*;
verus! {

//@item Ops

impl<T: TreeTypes> Ops<T> {
    //@fn Ops::new
    //@spec
        ensures r.inner@.len() == 0
    //@end
    //@fn Ops::push
    //@spec
        ensures final(self).inner@ == old(self).inner@.push(op)
    //@end
    //@fn Ops::into_inner
    //@spec
        ensures r@ == self.inner@
    //@end
}

// ---------------------------------------------------------------- one phase, generically
/// The operations selected by `sel` are exactly those wanted for the first `i` items, in
/// item order and once each.
pub open spec fn part<O, I>(ops: Seq<O>, it: Seq<I>, i: int, sel: spec_fn(O) -> bool, key: spec_fn(O) -> I, good: spec_fn(O) -> bool, want: spec_fn(I) -> bool) -> bool {
    &&& forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() && sel(ops[k]) ==>
            0 <= it.index_of(key(ops[k])) < i && it[it.index_of(key(ops[k]))] == key(ops[k]) && want(key(ops[k])) && good(ops[k])
    &&& forall|j: int| #![trigger it[j]] 0 <= j < i && want(it[j]) ==> exists|k: int| 0 <= k < ops.len() && sel(#[trigger] ops[k]) && key(ops[k]) == it[j]
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && sel(ops[k]) && sel(ops[l]) ==>
            it.index_of(key(ops[k])) < it.index_of(key(ops[l]))
}

pub proof fn lemma_part_init<O, I>(ops: Seq<O>, it: Seq<I>, sel: spec_fn(O) -> bool, key: spec_fn(O) -> I, good: spec_fn(O) -> bool, want: spec_fn(I) -> bool)
    requires forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() ==> !sel(ops[k])
    ensures part(ops, it, 0, sel, key, good, want)
{}

/// Appending an operation of another sort changes nothing.
pub proof fn lemma_part_other<O, I>(ops: Seq<O>, op: O, it: Seq<I>, i: int, sel: spec_fn(O) -> bool, key: spec_fn(O) -> I, good: spec_fn(O) -> bool, want: spec_fn(I) -> bool)
    requires part(ops, it, i, sel, key, good, want), !sel(op)
    ensures part(ops.push(op), it, i, sel, key, good, want)
{
    let n = ops.push(op);
    assert forall|j: int| #![trigger it[j]] 0 <= j < i && want(it[j]) implies exists|k: int| 0 <= k < n.len() && sel(#[trigger] n[k]) && key(n[k]) == it[j] by {
        let k = choose|k: int| 0 <= k < ops.len() && sel(#[trigger] ops[k]) && key(ops[k]) == it[j];
        assert(n[k] == ops[k]);
    }
    assert forall|k: int, l: int| #![trigger n[k], n[l]] 0 <= k < l < n.len() && sel(n[k]) && sel(n[l]) implies it.index_of(key(n[k])) < it.index_of(key(n[l])) by {
        assert(n[k] == ops[k]);
        assert(n[l] == ops[l]);
    }
    assert forall|k: int| #![trigger n[k]] 0 <= k < n.len() && sel(n[k]) implies
            0 <= it.index_of(key(n[k])) < i && it[it.index_of(key(n[k]))] == key(n[k]) && want(key(n[k])) && good(n[k]) by {
        assert(n[k] == ops[k]);
    }
}

/// The next item is not wanted.
pub proof fn lemma_part_skip<O, I>(ops: Seq<O>, it: Seq<I>, i: int, sel: spec_fn(O) -> bool, key: spec_fn(O) -> I, good: spec_fn(O) -> bool, want: spec_fn(I) -> bool)
    requires part(ops, it, i, sel, key, good, want), 0 <= i < it.len(), !want(it[i])
    ensures part(ops, it, i + 1, sel, key, good, want)
{}

/// The next item is wanted and its operation is appended.
pub proof fn lemma_part_push<O, I>(ops: Seq<O>, op: O, it: Seq<I>, i: int, sel: spec_fn(O) -> bool, key: spec_fn(O) -> I, good: spec_fn(O) -> bool, want: spec_fn(I) -> bool)
    requires part(ops, it, i, sel, key, good, want), 0 <= i < it.len(), it.no_duplicates(),
        want(it[i]), sel(op), key(op) == it[i], good(op)
    ensures part(ops.push(op), it, i + 1, sel, key, good, want)
{
    let n = ops.push(op);
    lemma_index_of(it, i);
    assert(n[ops.len() as int] == op);
    assert forall|j: int| #![trigger it[j]] 0 <= j < i + 1 && want(it[j]) implies exists|k: int| 0 <= k < n.len() && sel(#[trigger] n[k]) && key(n[k]) == it[j] by {
        if j < i {
            let k = choose|k: int| 0 <= k < ops.len() && sel(#[trigger] ops[k]) && key(ops[k]) == it[j];
            assert(n[k] == ops[k]);
        }
    }
    assert forall|k: int, l: int| #![trigger n[k], n[l]] 0 <= k < l < n.len() && sel(n[k]) && sel(n[l]) implies it.index_of(key(n[k])) < it.index_of(key(n[l])) by {
        assert(n[k] == ops[k]);
        if l < ops.len() { assert(n[l] == ops[l]); }
    }
    assert forall|k: int| #![trigger n[k]] 0 <= k < n.len() && sel(n[k]) implies
            0 <= it.index_of(key(n[k])) < i + 1 && it[it.index_of(key(n[k]))] == key(n[k]) && want(key(n[k])) && good(n[k]) by {
        if k < ops.len() { assert(n[k] == ops[k]); }
    }
}

pub open spec fn p_ins<TB: DiffTree>(tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, it: Seq<NodeId>, i: int) -> bool {
    part(ops, it, i, |op: EditOp<TB::Types>| is_ins(op), |op: EditOp<TB::Types>| node_b(op), |op: EditOp<TB::Types>| ins_data(tb, op), |b: NodeId| want_ins(tb, m, b))
}
pub open spec fn p_del<TA: DiffTree>(ta: &TA, m: &Matching, ops: Seq<EditOp<TA::Types>>, it: Seq<NodeId>, i: int) -> bool {
    part(ops, it, i, |op: EditOp<TA::Types>| is_del(op), |op: EditOp<TA::Types>| node_a(op), |op: EditOp<TA::Types>| true, |a: NodeId| want_del(ta, m, a))
}
/// The new-tree node `b` has a partner that has to move.
pub open spec fn moves_to<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, b: NodeId) -> bool {
    m.s_get_a(b) is Some && want_mov(ta, tb, m, m.s_get_a(b)->0, b)
}
pub open spec fn mov_good<TB: DiffTree>(tb: &TB, m: &Matching, op: EditOp<TB::Types>) -> bool {
    mov_data(tb, op) && m.s_get_a(node_b(op)) == Some(node_a(op))
}
pub open spec fn p_mov<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>, it: Seq<NodeId>, i: int) -> bool {
    part(ops, it, i, |op: EditOp<TA::Types>| is_mov(op), |op: EditOp<TA::Types>| node_b(op), |op: EditOp<TA::Types>| mov_good(tb, m, op), |b: NodeId| moves_to(ta, tb, m, b))
}
pub open spec fn p_txt<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>, it: Seq<(NodeId, NodeId)>, i: int) -> bool {
    part(ops, it, i, |op: EditOp<TA::Types>| is_txt(op), |op: EditOp<TA::Types>| (node_a(op), node_b(op)), |op: EditOp<TA::Types>| txt_data(tb, op), |p: (NodeId, NodeId)| want_txt(ta, tb, m, p.0, p.1))
}
pub open spec fn p_upd<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>, it: Seq<(NodeId, NodeId)>, i: int) -> bool {
    part(ops, it, i, |op: EditOp<TA::Types>| is_upd(op), |op: EditOp<TA::Types>| (node_a(op), node_b(op)), |op: EditOp<TA::Types>| upd_data(ta, tb, op), |p: (NodeId, NodeId)| want_upd(ta, tb, m, p.0, p.1))
}

// ---------------------------------------------------------------- one iteration of each phase
pub open spec fn ins_step<TB: DiffTree>(tb: &TB, m: &Matching, o0: Seq<EditOp<TB::Types>>, o1: Seq<EditOp<TB::Types>>, b: NodeId) -> bool {
    if want_ins(tb, m, b) {
        o1.len() == o0.len() + 1 && o1 == o0.push(o1[o0.len() as int]) && is_ins(o1[o0.len() as int])
        && node_b(o1[o0.len() as int]) == b && ins_data(tb, o1[o0.len() as int])
    } else { o1 == o0 }
}
pub open spec fn del_step<TA: DiffTree>(ta: &TA, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, a: NodeId) -> bool {
    if want_del(ta, m, a) {
        o1.len() == o0.len() + 1 && o1 == o0.push(o1[o0.len() as int]) && is_del(o1[o0.len() as int])
        && node_a(o1[o0.len() as int]) == a
    } else { o1 == o0 }
}
pub open spec fn mov_step<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, b: NodeId) -> bool {
    if moves_to(ta, tb, m, b) {
        o1.len() == o0.len() + 1 && o1 == o0.push(o1[o0.len() as int]) && is_mov(o1[o0.len() as int])
        && node_b(o1[o0.len() as int]) == b && mov_good(tb, m, o1[o0.len() as int])
    } else { o1 == o0 }
}
pub open spec fn txt_for<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, op: EditOp<TA::Types>, a: NodeId, b: NodeId) -> bool {
    is_txt(op) && node_a(op) == a && node_b(op) == b && txt_data(tb, op)
}
pub open spec fn upd_for<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, op: EditOp<TA::Types>, a: NodeId, b: NodeId) -> bool {
    is_upd(op) && node_a(op) == a && node_b(op) == b && upd_data(ta, tb, op)
}
/// The pair's text update and property update, in either order.
pub open spec fn upd_step<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, a: NodeId, b: NodeId) -> bool {
    let n = o0.len() as int;
    let wt = want_txt(ta, tb, m, a, b);
    let wu = want_upd(ta, tb, m, a, b);
    if wt && wu {
        o1.len() == n + 2 && o1 == o0.push(o1[n]).push(o1[n + 1])
        && ((txt_for(ta, tb, o1[n], a, b) && upd_for(ta, tb, o1[n + 1], a, b))
            || (upd_for(ta, tb, o1[n], a, b) && txt_for(ta, tb, o1[n + 1], a, b)))
    } else if wt {
        o1.len() == n + 1 && o1 == o0.push(o1[n]) && txt_for(ta, tb, o1[n], a, b)
    } else if wu {
        o1.len() == n + 1 && o1 == o0.push(o1[n]) && upd_for(ta, tb, o1[n], a, b)
    } else {
        o1 == o0
    }
}
/// All five parts at once.
pub open spec fn parts<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>, iu: int, ii: int, im: int, id: int) -> bool {
    &&& p_txt(ta, tb, m, ops, m.pairs@, iu)
    &&& p_upd(ta, tb, m, ops, m.pairs@, iu)
    &&& p_ins(tb, m, ops, tb.s_iter(), ii)
    &&& p_mov(ta, tb, m, ops, tb.s_iter(), im)
    &&& p_del(ta, m, ops, ta.s_post(), id)
    &&& script_phases(ops)
}
pub proof fn lemma_parts_init<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires ops.len() == 0
    ensures parts(ta, tb, m, ops, 0, 0, 0, 0)
{}
/// Last phase present in the script so far.
pub open spec fn upto<T: TreeTypes>(ops: Seq<EditOp<T>>, p: int) -> bool {
    forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() ==> phase(ops[k]) <= p
}

pub proof fn lemma_ins_step<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, iu: int, ii: int, im: int, id: int)
    requires parts(ta, tb, m, o0, iu, ii, im, id), upto(o0, 1), 0 <= ii < tb.s_iter().len(), tb.s_iter().no_duplicates(),
        ins_step(tb, m, o0, o1, tb.s_iter()[ii]),
    ensures parts(ta, tb, m, o1, iu, ii + 1, im, id), upto(o1, 1)
{
    let it = tb.s_iter();
    let f = |op: EditOp<TB::Types>| is_ins(op);
    let key = |op: EditOp<TB::Types>| node_b(op);
    let good = |op: EditOp<TB::Types>| ins_data(tb, op);
    let want = |b: NodeId| want_ins(tb, m, b);
    if want_ins(tb, m, it[ii]) {
        let op = o1[o0.len() as int];
        lemma_part_push(o0, op, it, ii, f, key, good, want);
        other_txt(ta, tb, m, o0, op, iu);
        other_upd(ta, tb, m, o0, op, iu);
        other_mov(ta, tb, m, o0, op, im);
        other_del(ta, m, o0, op, id);
        lemma_phase_push(o0, op, 1);
    } else {
        lemma_part_skip(o0, it, ii, f, key, good, want);
    }
}
pub proof fn lemma_del_step<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, iu: int, ii: int, im: int, id: int)
    requires parts(ta, tb, m, o0, iu, ii, im, id), upto(o0, 3), 0 <= id < ta.s_post().len(), ta.s_post().no_duplicates(),
        del_step(ta, m, o0, o1, ta.s_post()[id]),
    ensures parts(ta, tb, m, o1, iu, ii, im, id + 1), upto(o1, 3)
{
    let it = ta.s_post();
    let f = |op: EditOp<TA::Types>| is_del(op);
    let key = |op: EditOp<TA::Types>| node_a(op);
    let good = |op: EditOp<TA::Types>| true;
    let want = |a: NodeId| want_del(ta, m, a);
    if want_del(ta, m, it[id]) {
        let op = o1[o0.len() as int];
        lemma_part_push(o0, op, it, id, f, key, good, want);
        other_txt(ta, tb, m, o0, op, iu);
        other_upd(ta, tb, m, o0, op, iu);
        other_mov(ta, tb, m, o0, op, im);
        other_ins(tb, m, o0, op, ii);
        lemma_phase_push(o0, op, 3);
    } else {
        lemma_part_skip(o0, it, id, f, key, good, want);
    }
}
pub proof fn lemma_mov_step<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, iu: int, ii: int, im: int, id: int)
    requires parts(ta, tb, m, o0, iu, ii, im, id), upto(o0, 2), 0 <= im < tb.s_iter().len(), tb.s_iter().no_duplicates(),
        mov_step(ta, tb, m, o0, o1, tb.s_iter()[im]),
    ensures parts(ta, tb, m, o1, iu, ii, im + 1, id), upto(o1, 2)
{
    let it = tb.s_iter();
    let f = |op: EditOp<TA::Types>| is_mov(op);
    let key = |op: EditOp<TA::Types>| node_b(op);
    let good = |op: EditOp<TA::Types>| mov_good(tb, m, op);
    let want = |b: NodeId| moves_to(ta, tb, m, b);
    if moves_to(ta, tb, m, it[im]) {
        let op = o1[o0.len() as int];
        lemma_part_push(o0, op, it, im, f, key, good, want);
        other_txt(ta, tb, m, o0, op, iu);
        other_upd(ta, tb, m, o0, op, iu);
        other_ins(tb, m, o0, op, ii);
        other_del(ta, m, o0, op, id);
        lemma_phase_push(o0, op, 2);
    } else {
        lemma_part_skip(o0, it, im, f, key, good, want);
    }
}
pub proof fn lemma_upd_step<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, iu: int, ii: int, im: int, id: int)
    requires parts(ta, tb, m, o0, iu, ii, im, id), upto(o0, 0), 0 <= iu < m.pairs@.len(), m.pairs@.no_duplicates(),
        upd_step(ta, tb, m, o0, o1, m.pairs@[iu].0, m.pairs@[iu].1),
    ensures parts(ta, tb, m, o1, iu + 1, ii, im, id), upto(o1, 0)
{
    let it = m.pairs@;
    let a = it[iu].0;
    let b = it[iu].1;
    let ft = |op: EditOp<TA::Types>| is_txt(op);
    let fu = |op: EditOp<TA::Types>| is_upd(op);
    let key = |op: EditOp<TA::Types>| (node_a(op), node_b(op));
    let gt = |op: EditOp<TA::Types>| txt_data(tb, op);
    let gu = |op: EditOp<TA::Types>| upd_data(ta, tb, op);
    let wt = |p: (NodeId, NodeId)| want_txt(ta, tb, m, p.0, p.1);
    let wu = |p: (NodeId, NodeId)| want_upd(ta, tb, m, p.0, p.1);
    let n = o0.len() as int;
    if want_txt(ta, tb, m, a, b) && want_upd(ta, tb, m, a, b) {
        let x = o1[n];
        let y = o1[n + 1];
        let om = o0.push(x);
        if txt_for(ta, tb, x, a, b) {
            lemma_part_push(o0, x, it, iu, ft, key, gt, wt);
            lemma_part_other(om, y, it, iu + 1, ft, key, gt, wt);
            lemma_part_other(o0, x, it, iu, fu, key, gu, wu);
            lemma_part_push(om, y, it, iu, fu, key, gu, wu);
        } else {
            lemma_part_other(o0, x, it, iu, ft, key, gt, wt);
            lemma_part_push(om, y, it, iu, ft, key, gt, wt);
            lemma_part_push(o0, x, it, iu, fu, key, gu, wu);
            lemma_part_other(om, y, it, iu + 1, fu, key, gu, wu);
        }
        other_ins(tb, m, o0, x, ii);
        other_ins(tb, m, om, y, ii);
        other_mov(ta, tb, m, o0, x, im);
        other_mov(ta, tb, m, om, y, im);
        other_del(ta, m, o0, x, id);
        other_del(ta, m, om, y, id);
        lemma_phase_push(o0, x, 0);
        lemma_phase_push(om, y, 0);
    } else if want_txt(ta, tb, m, a, b) {
        let x = o1[n];
        lemma_part_push(o0, x, it, iu, ft, key, gt, wt);
        lemma_part_other(o0, x, it, iu, fu, key, gu, wu);
        lemma_part_skip(o0.push(x), it, iu, fu, key, gu, wu);
        other_ins(tb, m, o0, x, ii);
        other_mov(ta, tb, m, o0, x, im);
        other_del(ta, m, o0, x, id);
        lemma_phase_push(o0, x, 0);
    } else if want_upd(ta, tb, m, a, b) {
        let x = o1[n];
        lemma_part_other(o0, x, it, iu, ft, key, gt, wt);
        lemma_part_skip(o0.push(x), it, iu, ft, key, gt, wt);
        lemma_part_push(o0, x, it, iu, fu, key, gu, wu);
        other_ins(tb, m, o0, x, ii);
        other_mov(ta, tb, m, o0, x, im);
        other_del(ta, m, o0, x, id);
        lemma_phase_push(o0, x, 0);
    } else {
        lemma_part_skip(o0, it, iu, ft, key, gt, wt);
        lemma_part_skip(o0, it, iu, fu, key, gu, wu);
    }
}
pub proof fn lemma_phase_push<T: TreeTypes>(o0: Seq<EditOp<T>>, op: EditOp<T>, p: int)
    requires script_phases(o0), upto(o0, p), phase(op) == p
    ensures script_phases(o0.push(op)), upto(o0.push(op), p)
{
    let n = o0.push(op);
    assert forall|k: int, l: int| #![trigger n[k], n[l]] 0 <= k < l < n.len() implies phase(n[k]) <= phase(n[l]) by {
        assert(n[k] == o0[k]);
        if l < o0.len() { assert(n[l] == o0[l]); }
    }
    assert forall|k: int| #![trigger n[k]] 0 <= k < n.len() implies phase(n[k]) <= p by {
        if k < o0.len() { assert(n[k] == o0[k]); }
    }
}
proof fn other_ins<TB: DiffTree>(tb: &TB, m: &Matching, o: Seq<EditOp<TB::Types>>, op: EditOp<TB::Types>, i: int)
    requires p_ins(tb, m, o, tb.s_iter(), i), !is_ins(op)
    ensures p_ins(tb, m, o.push(op), tb.s_iter(), i)
{
    lemma_part_other(o, op, tb.s_iter(), i, |op: EditOp<TB::Types>| is_ins(op), |op: EditOp<TB::Types>| node_b(op), |op: EditOp<TB::Types>| ins_data(tb, op), |b: NodeId| want_ins(tb, m, b));
}
proof fn other_del<TA: DiffTree>(ta: &TA, m: &Matching, o: Seq<EditOp<TA::Types>>, op: EditOp<TA::Types>, i: int)
    requires p_del(ta, m, o, ta.s_post(), i), !is_del(op)
    ensures p_del(ta, m, o.push(op), ta.s_post(), i)
{
    lemma_part_other(o, op, ta.s_post(), i, |op: EditOp<TA::Types>| is_del(op), |op: EditOp<TA::Types>| node_a(op), |op: EditOp<TA::Types>| true, |a: NodeId| want_del(ta, m, a));
}
proof fn other_mov<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o: Seq<EditOp<TA::Types>>, op: EditOp<TA::Types>, i: int)
    requires p_mov(ta, tb, m, o, tb.s_iter(), i), !is_mov(op)
    ensures p_mov(ta, tb, m, o.push(op), tb.s_iter(), i)
{
    lemma_part_other(o, op, tb.s_iter(), i, |op: EditOp<TA::Types>| is_mov(op), |op: EditOp<TA::Types>| node_b(op), |op: EditOp<TA::Types>| mov_good(tb, m, op), |b: NodeId| moves_to(ta, tb, m, b));
}
proof fn other_txt<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o: Seq<EditOp<TA::Types>>, op: EditOp<TA::Types>, i: int)
    requires p_txt(ta, tb, m, o, m.pairs@, i), !is_txt(op)
    ensures p_txt(ta, tb, m, o.push(op), m.pairs@, i)
{
    lemma_part_other(o, op, m.pairs@, i, |op: EditOp<TA::Types>| is_txt(op), |op: EditOp<TA::Types>| (node_a(op), node_b(op)), |op: EditOp<TA::Types>| txt_data(tb, op), |p: (NodeId, NodeId)| want_txt(ta, tb, m, p.0, p.1));
}
proof fn other_upd<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o: Seq<EditOp<TA::Types>>, op: EditOp<TA::Types>, i: int)
    requires p_upd(ta, tb, m, o, m.pairs@, i), !is_upd(op)
    ensures p_upd(ta, tb, m, o.push(op), m.pairs@, i)
{
    lemma_part_other(o, op, m.pairs@, i, |op: EditOp<TA::Types>| is_upd(op), |op: EditOp<TA::Types>| (node_a(op), node_b(op)), |op: EditOp<TA::Types>| upd_data(ta, tb, op), |p: (NodeId, NodeId)| want_upd(ta, tb, m, p.0, p.1));
}

// ---------------------------------------------------------------- from the parts to the script
pub proof fn lemma_script_ins<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires p_ins(tb, m, ops, tb.s_iter(), tb.s_iter().len() as int), law_iter(tb)
    ensures script_ins(tb, m, ops)
{
    assert forall|b: NodeId| #[trigger] want_ins(tb, m, b) implies exists|k: int| 0 <= k < ops.len() && is_ins(#[trigger] ops[k]) && node_b(ops[k]) == b by {
        assert(tb.s_iter().contains(b));
        let j = choose|j: int| 0 <= j < tb.s_iter().len() && tb.s_iter()[j] == b;
        assert(want_ins(tb, m, tb.s_iter()[j]));
    }
}
pub proof fn lemma_script_del<TA: DiffTree>(ta: &TA, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires p_del(ta, m, ops, ta.s_post(), ta.s_post().len() as int), law_post(ta)
    ensures script_del(ta, m, ops)
{
    assert forall|a: NodeId| #[trigger] want_del(ta, m, a) implies exists|k: int| 0 <= k < ops.len() && is_del(#[trigger] ops[k]) && node_a(ops[k]) == a by {
        assert(ta.s_post().contains(a));
        let j = choose|j: int| 0 <= j < ta.s_post().len() && ta.s_post()[j] == a;
        assert(want_del(ta, m, ta.s_post()[j]));
    }
}
pub proof fn lemma_script_mov<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires p_mov(ta, tb, m, ops, tb.s_iter(), tb.s_iter().len() as int), m_ok(ta, tb, m), law_shape(ta), law_shape(tb), law_iter(tb)
    ensures script_mov(ta, tb, m, ops)
{
    assert forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() && is_mov(ops[k]) implies want_mov(ta, tb, m, node_a(ops[k]), node_b(ops[k])) && mov_data(tb, ops[k]) by {
        assert(mov_good(tb, m, ops[k]) && moves_to(ta, tb, m, node_b(ops[k])));
    }
    assert forall|a: NodeId, b: NodeId| #[trigger] want_mov(ta, tb, m, a, b) implies exists|k: int| 0 <= k < ops.len() && is_mov(#[trigger] ops[k]) && node_a(ops[k]) == a && node_b(ops[k]) == b by {
        lemma_pair_of(ta, tb, m, a, b);
        assert(tb.s_iter().contains(b));
        let j = choose|j: int| 0 <= j < tb.s_iter().len() && tb.s_iter()[j] == b;
        assert(moves_to(ta, tb, m, tb.s_iter()[j]));
        let k = choose|k: int| 0 <= k < ops.len() && is_mov(#[trigger] ops[k]) && node_b(ops[k]) == tb.s_iter()[j];
        assert(mov_good(tb, m, ops[k]));
    }
    assert forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && is_mov(ops[k]) && is_mov(ops[l]) implies node_a(ops[k]) != node_a(ops[l]) by {
        assert(tb.s_iter().index_of(node_b(ops[k])) < tb.s_iter().index_of(node_b(ops[l])));
        assert(want_mov(ta, tb, m, node_a(ops[k]), node_b(ops[k])));
        assert(want_mov(ta, tb, m, node_a(ops[l]), node_b(ops[l])));
    }
}
/// An ancestor comes first in the traversal.
pub proof fn anc_first<T: DiffTree>(t: &T, x: NodeId, y: NodeId, n: nat)
    requires law_shape(t), law_iter(t), t.s_has(y), up(t, y, n) == Some(x)
    ensures n > 0 ==> t.s_iter().index_of(x) < t.s_iter().index_of(y), t.s_has(x)
    decreases n
{
    if n > 0 {
        let z = up(t, y, (n - 1) as nat)->0;
        anc_first(t, z, y, (n - 1) as nat);
    }
}
pub proof fn lemma_script_txt<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires p_txt(ta, tb, m, ops, m.pairs@, m.pairs@.len() as int), m_ok(ta, tb, m), law_shape(ta), law_shape(tb)
    ensures script_txt(ta, tb, m, ops)
{
    assert forall|a: NodeId, b: NodeId| #[trigger] want_txt(ta, tb, m, a, b) implies exists|k: int| 0 <= k < ops.len() && is_txt(#[trigger] ops[k]) && node_a(ops[k]) == a && node_b(ops[k]) == b by {
        lemma_pair_of(ta, tb, m, a, b);
        let j = choose|j: int| 0 <= j < m.pairs@.len() && m.pairs@[j] == (a, b);
        assert(want_txt(ta, tb, m, m.pairs@[j].0, m.pairs@[j].1));
    }
    assert forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && is_txt(ops[k]) && is_txt(ops[l]) implies node_a(ops[k]) != node_a(ops[l]) by {
        let x = (node_a(ops[k]), node_b(ops[k]));
        let y = (node_a(ops[l]), node_b(ops[l]));
        assert(m.pairs@.index_of(x) < m.pairs@.index_of(y));
        assert(m.pairs@.contains(x) && m.pairs@.contains(y));
        if x.0 == y.0 { lemma_pairs_unique(ta, tb, m, x, y); }
    }
}
pub proof fn lemma_script_upd<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires p_upd(ta, tb, m, ops, m.pairs@, m.pairs@.len() as int), m_ok(ta, tb, m), law_shape(ta), law_shape(tb)
    ensures script_upd(ta, tb, m, ops)
{
    assert forall|a: NodeId, b: NodeId| #[trigger] want_upd(ta, tb, m, a, b) implies exists|k: int| 0 <= k < ops.len() && is_upd(#[trigger] ops[k]) && node_a(ops[k]) == a && node_b(ops[k]) == b by {
        lemma_pair_of(ta, tb, m, a, b);
        let j = choose|j: int| 0 <= j < m.pairs@.len() && m.pairs@[j] == (a, b);
        assert(want_upd(ta, tb, m, m.pairs@[j].0, m.pairs@[j].1));
    }
    assert forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && is_upd(ops[k]) && is_upd(ops[l]) implies node_a(ops[k]) != node_a(ops[l]) by {
        let x = (node_a(ops[k]), node_b(ops[k]));
        let y = (node_a(ops[l]), node_b(ops[l]));
        assert(m.pairs@.index_of(x) < m.pairs@.index_of(y));
        assert(m.pairs@.contains(x) && m.pairs@.contains(y));
        if x.0 == y.0 { lemma_pairs_unique(ta, tb, m, x, y); }
    }
}
pub proof fn lemma_script_order<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires p_mov(ta, tb, m, ops, tb.s_iter(), tb.s_iter().len() as int), p_ins(tb, m, ops, tb.s_iter(), tb.s_iter().len() as int), p_del(ta, m, ops, ta.s_post(), ta.s_post().len() as int),
        law_iter(tb), law_post(ta), law_shape(ta), law_shape(tb), law_height(ta), law_height(tb)
    ensures script_order(ta, tb, ops)
{
    assert forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < ops.len() && 0 <= l < ops.len() && is_ins(ops[k]) && is_ins(ops[l])
            && tb.s_parent(node_b(ops[l])) == Some(node_b(ops[k])) implies k < l by {
        let x = node_b(ops[l]);
        assert(want_ins(tb, m, x));
        assert(tb.s_iter().index_of(tb.s_parent(x)->0) < tb.s_iter().index_of(x));
        if l < k { assert(tb.s_iter().index_of(node_b(ops[l])) < tb.s_iter().index_of(node_b(ops[k]))); }
    }
    assert forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < ops.len() && 0 <= l < ops.len() && is_del(ops[k]) && is_del(ops[l])
            && ta.s_parent(node_a(ops[k])) == Some(node_a(ops[l])) implies k < l by {
        let x = node_a(ops[k]);
        assert(want_del(ta, m, x));
        assert(ta.s_post().index_of(x) < ta.s_post().index_of(ta.s_parent(x)->0));
        if l < k { assert(ta.s_post().index_of(node_a(ops[l])) < ta.s_post().index_of(node_a(ops[k]))); }
    }
    assert forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < ops.len() && 0 <= l < ops.len() && is_mov(ops[k]) && is_mov(ops[l])
            && node_b(ops[k]) != node_b(ops[l]) && anc(tb, node_b(ops[k]), node_b(ops[l])) implies k < l by {
        let x = node_b(ops[k]);
        let y = node_b(ops[l]);
        assert(moves_to(ta, tb, m, y));
        let n = choose|n: nat| #[trigger] up(tb, y, n) == Some(x);
        let i = tb.s_iter().index_of(y);
        assert(tb.s_iter()[i] == y);
        anc_first(tb, x, y, n);
        if l < k { assert(tb.s_iter().index_of(node_b(ops[l])) < tb.s_iter().index_of(node_b(ops[k]))); }
    }
}

// ---------------------------------------------------------------- the function
/// Everything the function is given, kept folded inside its loops.
#[verifier::opaque]
pub open spec fn given<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching) -> bool {
    tree_ok(ta) && tree_ok(tb) && m_ok(ta, tb, m) && props_len_ok::<<TA::Types as TreeTypes>::Props>() && m.pairs@.no_duplicates()
    && hung(ta, tb, m)
}
/// The roots have no parents, or a parent outside the tree plays no part.
pub open spec fn hung<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching) -> bool {
    ta.s_rooted() && (tb.s_rooted() || m.s_get_a(tb.s_root()) == Some(ta.s_root()))
}
/// The script so far, kept folded inside the loops.
#[verifier::opaque]
pub open spec fn sofar<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>, iu: int, ii: int, im: int, id: int, p: int) -> bool {
    parts(ta, tb, m, ops, iu, ii, im, id) && upto(ops, p)
}
proof fn given_new<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching)
    requires tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), props_len_ok::<<TA::Types as TreeTypes>::Props>(), hung(ta, tb, m)
    ensures given(ta, tb, m)
{
    reveal(given);
    lemma_pairs_nodup(m);
}
proof fn sofar_start<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires ops.len() == 0
    ensures sofar(ta, tb, m, ops, 0, 0, 0, 0, 0)
{
    reveal(sofar);
}
proof fn sofar_next<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>, iu: int, ii: int, im: int, id: int, p: int)
    requires sofar(ta, tb, m, ops, iu, ii, im, id, p)
    ensures sofar(ta, tb, m, ops, iu, ii, im, id, p + 1)
{
    reveal(sofar);
}
/// What an iteration over the matched pairs knows about its pair.
proof fn given_pair<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, i: int)
    requires given(ta, tb, m), 0 <= i < m.pairs@.len()
    ensures hung(ta, tb, m), ta.s_has(ta.s_root()), ta.s_parent(ta.s_root()) is None,
        ta.inv(), tb.inv(),
        ta.s_has(m.pairs@[i].0), tb.s_has(m.pairs@[i].1),
        m.s_get_b(m.pairs@[i].0) == Some(m.pairs@[i].1), m.s_get_a(m.pairs@[i].1) == Some(m.pairs@[i].0),
        types_ok::<TA::Types>(),
        ta.s_parent(m.pairs@[i].0) is Some ==> ta.s_has(ta.s_parent(m.pairs@[i].0)->0),
        tb.s_parent(m.pairs@[i].1) is Some ==> tb.s_has(tb.s_parent(m.pairs@[i].1)->0),
        ta.s_properties(m.pairs@[i].0).s_diff(tb.s_properties(m.pairs@[i].1)).len() == tb.s_properties(m.pairs@[i].1).s_len(),
{
    reveal(given);
}
/// What an iteration over the new nodes knows about a matched one.
proof fn given_node<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, i: int)
    requires given(ta, tb, m), 0 <= i < tb.s_iter().len()
    ensures hung(ta, tb, m), ta.s_has(ta.s_root()), ta.s_parent(ta.s_root()) is None, ({
        let b = tb.s_iter()[i];
        &&& tb.s_has(b)
        &&& tb.s_parent(b) is Some ==> tb.s_has(tb.s_parent(b)->0)
        &&& m.s_get_a(b) is Some ==> {
            let a = m.s_get_a(b)->0;
            ta.s_has(a) && m.s_get_b(a) == Some(b) && (ta.s_parent(a) is Some ==> ta.s_has(ta.s_parent(a)->0))
        }
    })
{
    reveal(given);
    let b = tb.s_iter()[i];
    if m.s_get_a(b) is Some { pair_of_b(ta, tb, m, m.s_get_a(b)->0, b); }
}
proof fn given_a<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching)
    requires given(ta, tb, m)
    ensures hung(ta, tb, m), ta.s_has(ta.s_root()), ta.s_parent(ta.s_root()) is None, ta.inv(), tb.inv(), types_ok::<TA::Types>(),
        forall|i: int| 0 <= i < ta.s_iter().len() ==> ta.s_has(#[trigger] ta.s_iter()[i]),
        forall|i: int| 0 <= i < tb.s_iter().len() ==> tb.s_has(#[trigger] tb.s_iter()[i]),
        forall|i: int| 0 <= i < ta.s_post().len() ==> ta.s_has(#[trigger] ta.s_post()[i]),
{
    reveal(given);
}
proof fn given_set_a<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, s: Set<NodeId>)
    requires given(ta, tb, m), op_set(ta, s, ta.s_iter(), ta.s_iter().len() as int)
    ensures op_exact(ta, s)
{
    reveal(given);
    lemma_op_set_done(ta, s);
}
proof fn given_set_b<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, s: Set<NodeId>)
    requires given(ta, tb, m), op_set(tb, s, tb.s_iter(), tb.s_iter().len() as int)
    ensures op_exact(tb, s)
{
    reveal(given);
    lemma_op_set_done(tb, s);
}
proof fn next_upd<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, iu: int)
    requires given(ta, tb, m), sofar(ta, tb, m, o0, iu, 0, 0, 0, 0), 0 <= iu < m.pairs@.len(),
        upd_step(ta, tb, m, o0, o1, m.pairs@[iu].0, m.pairs@[iu].1),
    ensures sofar(ta, tb, m, o1, iu + 1, 0, 0, 0, 0)
{
    reveal(given);
    reveal(sofar);
    lemma_upd_step(ta, tb, m, o0, o1, iu, 0, 0, 0);
}
proof fn next_ins<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, ii: int)
    requires given(ta, tb, m), sofar(ta, tb, m, o0, m.pairs@.len() as int, ii, 0, 0, 1), 0 <= ii < tb.s_iter().len(),
        ins_step(tb, m, o0, o1, tb.s_iter()[ii]),
    ensures sofar(ta, tb, m, o1, m.pairs@.len() as int, ii + 1, 0, 0, 1)
{
    reveal(given);
    reveal(sofar);
    lemma_ins_step(ta, tb, m, o0, o1, m.pairs@.len() as int, ii, 0, 0);
}
proof fn next_mov<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, im: int)
    requires given(ta, tb, m), sofar(ta, tb, m, o0, m.pairs@.len() as int, tb.s_iter().len() as int, im, 0, 2), 0 <= im < tb.s_iter().len(),
        mov_step(ta, tb, m, o0, o1, tb.s_iter()[im]),
    ensures sofar(ta, tb, m, o1, m.pairs@.len() as int, tb.s_iter().len() as int, im + 1, 0, 2)
{
    reveal(given);
    reveal(sofar);
    lemma_mov_step(ta, tb, m, o0, o1, m.pairs@.len() as int, tb.s_iter().len() as int, im, 0);
}
proof fn next_del<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, o0: Seq<EditOp<TA::Types>>, o1: Seq<EditOp<TA::Types>>, id: int)
    requires given(ta, tb, m), sofar(ta, tb, m, o0, m.pairs@.len() as int, tb.s_iter().len() as int, tb.s_iter().len() as int, id, 3), 0 <= id < ta.s_post().len(),
        del_step(ta, m, o0, o1, ta.s_post()[id]),
    ensures sofar(ta, tb, m, o1, m.pairs@.len() as int, tb.s_iter().len() as int, tb.s_iter().len() as int, id + 1, 3)
{
    reveal(given);
    reveal(sofar);
    lemma_del_step(ta, tb, m, o0, o1, m.pairs@.len() as int, tb.s_iter().len() as int, tb.s_iter().len() as int, id);
}
proof fn script_done<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>)
    requires given(ta, tb, m), sofar(ta, tb, m, ops, m.pairs@.len() as int, tb.s_iter().len() as int, tb.s_iter().len() as int, ta.s_post().len() as int, 3)
    ensures script_ins(tb, m, ops), script_del(ta, m, ops), script_mov(ta, tb, m, ops), script_txt(ta, tb, m, ops), script_upd(ta, tb, m, ops),
        script_phases(ops), script_order(ta, tb, ops), script_opaque(ta, tb, ops),
{
    reveal(given);
    reveal(sofar);
    lemma_script_ins(ta, tb, m, ops);
    lemma_script_del(ta, m, ops);
    lemma_script_mov(ta, tb, m, ops);
    lemma_script_txt(ta, tb, m, ops);
    lemma_script_upd(ta, tb, m, ops);
    lemma_script_order(ta, tb, m, ops);
    assert forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() implies
        (!is_ins(ops[k]) ==> !in_op(ta, node_a(ops[k]))) && (!is_del(ops[k]) ==> !in_op(tb, node_b(ops[k]))) by {
        let op = ops[k];
        match op {
            EditOp::Insert { .. } => { assert(is_ins(op)); assert(want_ins(tb, m, node_b(op))); }
            EditOp::Delete { .. } => { assert(is_del(op)); assert(want_del(ta, m, node_a(op))); }
            EditOp::Move { .. } => { assert(is_mov(op)); assert(want_mov(ta, tb, m, node_a(op), node_b(op))); }
            EditOp::SetText { .. } => { assert(is_txt(op)); assert(want_txt(ta, tb, m, node_a(op), node_b(op))); }
            EditOp::UpdateProperties { .. } => { assert(is_upd(op)); assert(want_upd(ta, tb, m, node_a(op), node_b(op))); }
        }
    }
}

//@fn generate_edit_script loops=8
//@params tree_a tree_b matching
//@var ops 0 Ops::new()
//@var opaque_descendants_a 0 HashSet::new()
//@var opaque_descendants_b 1 HashSet::new()
//@pat 0+1 a_id
//@pat 2+3 b_id
//@pat 4 a_id b_id
//@pat 5 b_id
//@pat 6 b_id
//@pat 7 a_id
//@attr #[verifier::spinoff_prover]
//@spec
    requires
        tree_ok(tree_a), tree_ok(tree_b), m_ok(tree_a, tree_b, matching), hung(tree_a, tree_b, matching),
        props_len_ok::<<TA::Types as TreeTypes>::Props>(),
    ensures
        script_ins(tree_b, matching, r@), // @C04
        script_del(tree_a, matching, r@), // @C04
        script_mov(tree_a, tree_b, matching, r@), // @C05
        script_txt(tree_a, tree_b, matching, r@), // @C06
        script_upd(tree_a, tree_b, matching, r@), // @C06
        script_phases(r@), // @C07
        script_order(tree_a, tree_b, r@), // @C07
        script_opaque(tree_a, tree_b, r@), // @C10
        fit(tree_a, tree_b, matching) ==> replays(tree_a, tree_b, matching, r@), // @C08
//@start
    proof { given_new(tree_a, tree_b, matching); given_a(tree_a, tree_b, matching); }
//@loop 0 head
    invariant given(tree_a, tree_b, matching), __s0@ == tree_a.s_iter(), ops.inner@.len() == 0,
        op_set(tree_a, opaque_descendants_a@, tree_a.s_iter(), __i0 as int),
//@loop 0 start
    let ghost s0 = opaque_descendants_a@;
    let ghost mut d: Seq<NodeId> = Seq::empty();
    proof { given_a(tree_a, tree_b, matching); }
//@loop 1 pre
    proof { d = __s1@; }
//@loop 1 head
    invariant op_set_in(tree_a, opaque_descendants_a@, s0, a_id, __s1@, __i1 as int)
//@loop 0 end
    proof { lemma_op_set_step(tree_a, opaque_descendants_a@, s0, tree_a.s_iter(), __i0 - 1, d); } // @C10
//@loop 0 after
    proof { given_set_a(tree_a, tree_b, matching, opaque_descendants_a@); }
//@loop 2 head
    invariant given(tree_a, tree_b, matching), __s2@ == tree_b.s_iter(), ops.inner@.len() == 0,
        op_set(tree_b, opaque_descendants_b@, tree_b.s_iter(), __i2 as int),
//@loop 2 start
    let ghost s0 = opaque_descendants_b@;
    let ghost mut d: Seq<NodeId> = Seq::empty();
    proof { given_a(tree_a, tree_b, matching); }
//@loop 3 pre
    proof { d = __s3@; }
//@loop 3 head
    invariant op_set_in(tree_b, opaque_descendants_b@, s0, b_id, __s3@, __i3 as int)
//@loop 2 end
    proof { lemma_op_set_step(tree_b, opaque_descendants_b@, s0, tree_b.s_iter(), __i2 - 1, d); } // @C10
//@loop 2 after
    proof {
        given_set_b(tree_a, tree_b, matching, opaque_descendants_b@);
        sofar_start(tree_a, tree_b, matching, ops.inner@);
    }
//@loop 4 head
    invariant given(tree_a, tree_b, matching), __s4@ == matching.pairs@,
        op_exact(tree_a, opaque_descendants_a@), op_exact(tree_b, opaque_descendants_b@),
        sofar(tree_a, tree_b, matching, ops.inner@, __i4 as int, 0, 0, 0, 0), // @C06 @C07
//@loop 4 start
    let ghost o0 = ops.inner@;
    proof { given_pair(tree_a, tree_b, matching, __i4 - 1); }
//@loop 4 end
    proof {
        assert(upd_step(tree_a, tree_b, matching, o0, ops.inner@, a_id, b_id)); // @C06 @C10 @C08 @C14 @C09
        next_upd(tree_a, tree_b, matching, o0, ops.inner@, __i4 - 1);
    }
//@loop 4 after
    proof { sofar_next(tree_a, tree_b, matching, ops.inner@, matching.pairs@.len() as int, 0, 0, 0, 0); }
//@loop 5 head
    invariant given(tree_a, tree_b, matching), __s5@ == tree_b.s_iter(),
        op_exact(tree_a, opaque_descendants_a@), op_exact(tree_b, opaque_descendants_b@),
        sofar(tree_a, tree_b, matching, ops.inner@, matching.pairs@.len() as int, __i5 as int, 0, 0, 1), // @C04 @C07
//@loop 5 start
    let ghost o0 = ops.inner@;
    proof { given_a(tree_a, tree_b, matching); }
//@loop 5 end
    proof {
        assert(ins_step(tree_b, matching, o0, ops.inner@, b_id)); // @C04 @C10 @C08 @C14 @C09
        next_ins(tree_a, tree_b, matching, o0, ops.inner@, __i5 - 1);
    }
//@loop 5 after
    proof { sofar_next(tree_a, tree_b, matching, ops.inner@, matching.pairs@.len() as int, tree_b.s_iter().len() as int, 0, 0, 1); }
//@loop 6 head
    invariant given(tree_a, tree_b, matching), __s6@ == tree_b.s_iter(),
        op_exact(tree_a, opaque_descendants_a@), op_exact(tree_b, opaque_descendants_b@),
        sofar(tree_a, tree_b, matching, ops.inner@, matching.pairs@.len() as int, tree_b.s_iter().len() as int, __i6 as int, 0, 2), // @C05 @C07
//@loop 6 start
    let ghost o0 = ops.inner@;
    proof { given_a(tree_a, tree_b, matching); given_node(tree_a, tree_b, matching, __i6 - 1); }
//@loop 6 end
    proof {
        assert(mov_step(tree_a, tree_b, matching, o0, ops.inner@, b_id)); // @C05 @C10 @C08 @C14 @C09
        next_mov(tree_a, tree_b, matching, o0, ops.inner@, __i6 - 1);
    }
//@loop 6 after
    proof { sofar_next(tree_a, tree_b, matching, ops.inner@, matching.pairs@.len() as int, tree_b.s_iter().len() as int, tree_b.s_iter().len() as int, 0, 2); }
//@loop 7 head
    invariant given(tree_a, tree_b, matching), __s7@ == tree_a.s_post(),
        op_exact(tree_a, opaque_descendants_a@), op_exact(tree_b, opaque_descendants_b@),
        sofar(tree_a, tree_b, matching, ops.inner@, matching.pairs@.len() as int, tree_b.s_iter().len() as int, tree_b.s_iter().len() as int, __i7 as int, 3), // @C04 @C07
//@loop 7 start
    let ghost o0 = ops.inner@;
    proof { given_a(tree_a, tree_b, matching); }
//@loop 7 end
    proof {
        assert(del_step(tree_a, matching, o0, ops.inner@, a_id)); // @C04 @C10 @C08 @C14 @C09
        next_del(tree_a, tree_b, matching, o0, ops.inner@, __i7 - 1);
    }
//@tail
    proof {
        script_done(tree_a, tree_b, matching, ops.inner@);
        if fit(tree_a, tree_b, matching) { replay_all(tree_a, tree_b, matching, ops.inner@); } // @C08
    }
//@end

} // verus!
}
