// generate_edit_script: what the edit script has to contain, one predicate per property.
pub mod chawathe_spec {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
verus! {

//@item PropChanges
//@item EditOp

// ---------------------------------------------------------------- what the script has to contain
/// A matched pair of live nodes, neither inside an opaque node.
pub open spec fn vis_pair<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId) -> bool {
    ta.s_has(a) && m.s_get_b(a) == Some(b) && !in_op(ta, a) && !in_op(tb, b)
}
pub open spec fn want_ins<TB: DiffTree>(tb: &TB, m: &Matching, b: NodeId) -> bool {
    tb.s_has(b) && m.s_get_a(b) is None && tb.s_parent(b) is Some && !in_op(tb, b)
}
pub open spec fn want_del<TA: DiffTree>(ta: &TA, m: &Matching, a: NodeId) -> bool {
    ta.s_has(a) && m.s_get_b(a) is None && !in_op(ta, a)
}
pub open spec fn place_changed<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId) -> bool {
    ta.s_parent(a) is Some && tb.s_parent(b) is Some
    && (m.s_get_b(ta.s_parent(a)->0) != Some(tb.s_parent(b)->0) || ta.s_position(a) != tb.s_position(b))
}
pub open spec fn want_mov<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId) -> bool {
    vis_pair(ta, tb, m, a, b) && place_changed(ta, tb, m, a, b)
}
pub open spec fn text_changed<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, a: NodeId, b: NodeId) -> bool {
    tb.s_text(b) is Some && says::<TA::Types>(ta.s_text(a)) != says::<TA::Types>(tb.s_text(b))
}
pub open spec fn want_txt<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId) -> bool {
    vis_pair(ta, tb, m, a, b) && text_changed(ta, tb, a, b)
}
/// Some entry of the final property list is marked changed, or the final list is shorter.
pub open spec fn diff_changed<P: Properties>(p: &P, q: &P) -> bool {
    (exists|i: int| 0 <= i < p.s_diff(q).len() && (#[trigger] p.s_diff(q)[i]).value is Different)
    || p.s_len() > p.s_diff(q).len()
}
pub open spec fn want_upd<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId) -> bool {
    vis_pair(ta, tb, m, a, b) && diff_changed(ta.s_properties(a), tb.s_properties(b))
}
/// ASSUMED(Properties implementations): the final state lists the new properties, so it has
/// their number.
pub open spec fn props_len_ok<P: Properties>() -> bool {
    forall|p: P, q: P| (#[trigger] p.s_diff(&q)).len() == q.s_len()
}

pub open spec fn is_ins<T: TreeTypes>(op: EditOp<T>) -> bool { op is Insert }
pub open spec fn is_del<T: TreeTypes>(op: EditOp<T>) -> bool { op is Delete }
pub open spec fn is_mov<T: TreeTypes>(op: EditOp<T>) -> bool { op is Move }
pub open spec fn is_txt<T: TreeTypes>(op: EditOp<T>) -> bool { op is SetText }
pub open spec fn is_upd<T: TreeTypes>(op: EditOp<T>) -> bool { op is UpdateProperties }

pub open spec fn node_a<T: TreeTypes>(op: EditOp<T>) -> NodeId {
    match op {
        EditOp::UpdateProperties { node_a, .. } => node_a,
        EditOp::Delete { node_a } => node_a,
        EditOp::Move { node_a, .. } => node_a,
        EditOp::SetText { node_a, .. } => node_a,
        EditOp::Insert { node_b, .. } => arbitrary(),
    }
}
pub open spec fn node_b<T: TreeTypes>(op: EditOp<T>) -> NodeId {
    match op {
        EditOp::UpdateProperties { node_b, .. } => node_b,
        EditOp::Insert { node_b, .. } => node_b,
        EditOp::Move { node_b, .. } => node_b,
        EditOp::SetText { node_b, .. } => node_b,
        EditOp::Delete { node_a } => arbitrary(),
    }
}
/// The operation carries the data of the new tree.
pub open spec fn ins_data<TB: DiffTree>(tb: &TB, op: EditOp<TB::Types>) -> bool {
    match op {
        EditOp::Insert { node_b, parent_b, position, kind } =>
            tb.s_parent(node_b) == Some(parent_b) && position == tb.s_position(node_b) && kind == *tb.s_kind(node_b),
        _ => false,
    }
}
pub open spec fn mov_data<TB: DiffTree>(tb: &TB, op: EditOp<TB::Types>) -> bool {
    match op {
        EditOp::Move { node_a, node_b, new_parent_b, new_position } =>
            tb.s_parent(node_b) == Some(new_parent_b) && new_position == tb.s_position(node_b),
        _ => false,
    }
}
pub open spec fn txt_data<TB: DiffTree>(tb: &TB, op: EditOp<TB::Types>) -> bool {
    match op {
        EditOp::SetText { node_a, node_b, text } => tb.s_text(node_b) is Some && <TB::Types as TreeTypes>::text_v(&text) == <TB::Types as TreeTypes>::text_v(tb.s_text(node_b)->0),
        _ => false,
    }
}
pub open spec fn upd_data<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, op: EditOp<TB::Types>) -> bool {
    match op {
        EditOp::UpdateProperties { node_a, node_b, changes } =>
            changes@ == ta.s_properties(node_a).s_diff(tb.s_properties(node_b)),
        _ => false,
    }
}

// ---- the contract of the script, one predicate per property
pub open spec fn script_ins<TB: DiffTree>(tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>) -> bool {
    &&& forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() && is_ins(ops[k]) ==> want_ins(tb, m, node_b(ops[k])) && ins_data(tb, ops[k])
    &&& forall|b: NodeId| #[trigger] want_ins(tb, m, b) ==> exists|k: int| 0 <= k < ops.len() && is_ins(#[trigger] ops[k]) && node_b(ops[k]) == b
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && is_ins(ops[k]) && is_ins(ops[l]) ==> node_b(ops[k]) != node_b(ops[l])
}
pub open spec fn script_del<TA: DiffTree>(ta: &TA, m: &Matching, ops: Seq<EditOp<TA::Types>>) -> bool {
    &&& forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() && is_del(ops[k]) ==> want_del(ta, m, node_a(ops[k]))
    &&& forall|a: NodeId| #[trigger] want_del(ta, m, a) ==> exists|k: int| 0 <= k < ops.len() && is_del(#[trigger] ops[k]) && node_a(ops[k]) == a
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && is_del(ops[k]) && is_del(ops[l]) ==> node_a(ops[k]) != node_a(ops[l])
}
pub open spec fn script_mov<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>) -> bool {
    &&& forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() && is_mov(ops[k]) ==> want_mov(ta, tb, m, node_a(ops[k]), node_b(ops[k])) && mov_data(tb, ops[k])
    &&& forall|a: NodeId, b: NodeId| #[trigger] want_mov(ta, tb, m, a, b) ==> exists|k: int| 0 <= k < ops.len() && is_mov(#[trigger] ops[k]) && node_a(ops[k]) == a && node_b(ops[k]) == b
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && is_mov(ops[k]) && is_mov(ops[l]) ==> node_a(ops[k]) != node_a(ops[l])
}
pub open spec fn script_txt<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>) -> bool {
    &&& forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() && is_txt(ops[k]) ==> want_txt(ta, tb, m, node_a(ops[k]), node_b(ops[k])) && txt_data(tb, ops[k])
    &&& forall|a: NodeId, b: NodeId| #[trigger] want_txt(ta, tb, m, a, b) ==> exists|k: int| 0 <= k < ops.len() && is_txt(#[trigger] ops[k]) && node_a(ops[k]) == a && node_b(ops[k]) == b
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && is_txt(ops[k]) && is_txt(ops[l]) ==> node_a(ops[k]) != node_a(ops[l])
}
pub open spec fn script_upd<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TA::Types>>) -> bool {
    &&& forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() && is_upd(ops[k]) ==> want_upd(ta, tb, m, node_a(ops[k]), node_b(ops[k])) && upd_data(ta, tb, ops[k])
    &&& forall|a: NodeId, b: NodeId| #[trigger] want_upd(ta, tb, m, a, b) ==> exists|k: int| 0 <= k < ops.len() && is_upd(#[trigger] ops[k]) && node_a(ops[k]) == a && node_b(ops[k]) == b
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() && is_upd(ops[k]) && is_upd(ops[l]) ==> node_a(ops[k]) != node_a(ops[l])
}
pub open spec fn phase<T: TreeTypes>(op: EditOp<T>) -> int {
    match op {
        EditOp::UpdateProperties { .. } => 0,
        EditOp::SetText { .. } => 0,
        EditOp::Insert { .. } => 1,
        EditOp::Move { .. } => 2,
        EditOp::Delete { .. } => 3,
    }
}
pub open spec fn script_phases<T: TreeTypes>(ops: Seq<EditOp<T>>) -> bool {
    forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < l < ops.len() ==> phase(ops[k]) <= phase(ops[l])
}
/// Inserted parents come first, deleted children come first, and so do a moved node's new
/// ancestors.
pub open spec fn script_order<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, ops: Seq<EditOp<TA::Types>>) -> bool {
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < ops.len() && 0 <= l < ops.len() && is_ins(ops[k]) && is_ins(ops[l])
            && tb.s_parent(node_b(ops[l])) == Some(node_b(ops[k])) ==> k < l
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < ops.len() && 0 <= l < ops.len() && is_del(ops[k]) && is_del(ops[l])
            && ta.s_parent(node_a(ops[k])) == Some(node_a(ops[l])) ==> k < l
    &&& forall|k: int, l: int| #![trigger ops[k], ops[l]] 0 <= k < ops.len() && 0 <= l < ops.len() && is_mov(ops[k]) && is_mov(ops[l])
            && node_b(ops[k]) != node_b(ops[l]) && anc(tb, node_b(ops[k]), node_b(ops[l])) ==> k < l
}
/// No operation names a node strictly inside an opaque node.
pub open spec fn script_opaque<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, ops: Seq<EditOp<TA::Types>>) -> bool {
    forall|k: int| #![trigger ops[k]] 0 <= k < ops.len() ==>
        (!is_ins(ops[k]) ==> !in_op(ta, node_a(ops[k]))) && (!is_del(ops[k]) ==> !in_op(tb, node_b(ops[k])))
}
/// Everything known about the script.
pub open spec fn script_all<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>) -> bool {
    &&& script_ins(tb, m, ops)
    &&& script_del(ta, m, ops)
    &&& script_mov(ta, tb, m, ops)
    &&& script_txt(ta, tb, m, ops)
    &&& script_upd(ta, tb, m, ops)
    &&& script_order(ta, tb, ops)
    &&& script_phases(ops)
}

} // verus!
}
