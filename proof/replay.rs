// Replaying an edit script on the old tree, one record per node.
pub mod replay {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe::*;
verus! {

/// A node of the document under edit: one of the old tree, or one inserted for a node of the
/// new tree.
pub ghost enum Key { Old(NodeId), New(NodeId) }
/// Properties: a node's own, or the final list an update carries.
pub ghost enum PropState<T: TreeTypes> {
    Own(T::Props),
    Final(Seq<PropertyInFinalState<<T::Props as Properties>::Key, <T::Props as Properties>::Value>>),
}
pub ghost struct Rec<T: TreeTypes> {
    pub place: Option<(Key, usize)>,
    pub kind: T::Kind,
    pub text: Option<T::TextV>,
    pub props: PropState<T>,
}
pub type St<T> = spec_fn(Key) -> Option<Rec<T>>;

/// The record that stands for a node of the new tree.
pub open spec fn img(m: &Matching, b: NodeId) -> Key {
    match m.s_get_a(b) { Some(a) => Key::Old(a), None => Key::New(b) }
}
pub open spec fn put<T: TreeTypes>(st: St<T>, k: Key, r: Option<Rec<T>>) -> St<T> {
    |x: Key| if x == k { r } else { st(x) }
}
/// One operation: one record created, removed or updated.
pub open spec fn apply<TB: DiffTree>(tb: &TB, m: &Matching, st: St<TB::Types>, op: EditOp<TB::Types>) -> St<TB::Types> {
    match op {
        EditOp::UpdateProperties { node_a, node_b, changes } => put(st, Key::Old(node_a), Some(Rec { props: PropState::Final(changes@), ..st(Key::Old(node_a))->0 })),
        EditOp::SetText { node_a, node_b, text } => put(st, Key::Old(node_a), Some(Rec { text: Some(<TB::Types as TreeTypes>::text_v(&text)), ..st(Key::Old(node_a))->0 })),
        EditOp::Insert { node_b, parent_b, position, kind } => put(st, Key::New(node_b), Some(Rec {
            place: Some((img(m, parent_b), position)), kind: kind, text: says::<TB::Types>(tb.s_text(node_b)), props: PropState::Own(*tb.s_properties(node_b)),
        })),
        EditOp::Move { node_a, node_b, new_parent_b, new_position } => put(st, Key::Old(node_a), Some(Rec {
            place: Some((img(m, new_parent_b), new_position)), ..st(Key::Old(node_a))->0
        })),
        EditOp::Delete { node_a } => put(st, Key::Old(node_a), None),
    }
}
/// Everything the operation refers to exists.
pub open spec fn can<TB: DiffTree>(tb: &TB, m: &Matching, st: St<TB::Types>, op: EditOp<TB::Types>) -> bool {
    match op {
        EditOp::UpdateProperties { node_a, node_b, changes } => st(Key::Old(node_a)) is Some,
        EditOp::SetText { node_a, node_b, text } => st(Key::Old(node_a)) is Some,
        EditOp::Insert { node_b, parent_b, position, kind } => st(img(m, parent_b)) is Some && st(Key::New(node_b)) is None,
        EditOp::Move { node_a, node_b, new_parent_b, new_position } => st(Key::Old(node_a)) is Some && st(img(m, new_parent_b)) is Some,
        EditOp::Delete { node_a } => st(Key::Old(node_a)) is Some,
    }
}
/// The old tree without the insides of its opaque nodes.
pub open spec fn start<TA: DiffTree>(ta: &TA) -> St<TA::Types> {
    |k: Key| match k {
        Key::Old(a) => if ta.s_has(a) && !in_op(ta, a) {
            Some(Rec { place: place0(ta, a), kind: *ta.s_kind(a), text: says::<TA::Types>(ta.s_text(a)), props: PropState::Own(*ta.s_properties(a)) })
        } else { None },
        Key::New(b) => None,
    }
}
pub open spec fn place0<TA: DiffTree>(ta: &TA, a: NodeId) -> Option<(Key, usize)> {
    match ta.s_parent(a) { Some(p) => Some((Key::Old(p), ta.s_position(a))), None => None }
}
/// The state after the first `k` operations.
pub open spec fn run<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, k: nat) -> St<TB::Types>
    decreases k
{
    if k == 0 { start(ta) } else { apply(tb, m, run(ta, tb, m, ops, (k - 1) as nat), ops[k - 1]) }
}
/// What the record of a new-tree node has to look like in the end.
pub open spec fn place1<TB: DiffTree>(tb: &TB, m: &Matching, b: NodeId) -> Option<(Key, usize)> {
    match tb.s_parent(b) { Some(p) => Some((img(m, p), tb.s_position(b))), None => None }
}
pub open spec fn props1<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, b: NodeId) -> PropState<TB::Types> {
    match m.s_get_a(b) {
        Some(a) => if diff_changed(ta.s_properties(a), tb.s_properties(b)) {
            PropState::Final(ta.s_properties(a).s_diff(tb.s_properties(b)))
        } else { PropState::Own(*ta.s_properties(a)) },
        None => PropState::Own(*tb.s_properties(b)),
    }
}
pub open spec fn rec1<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, b: NodeId) -> Rec<TB::Types> {
    Rec { place: place1(tb, m, b), kind: *tb.s_kind(b), text: says::<TA::Types>(tb.s_text(b)), props: props1(ta, tb, m, b) }
}
/// Every operation finds what it refers to, and in the end there is exactly one record for each
/// node of the new tree outside opaque nodes, and it is right.
#[verifier::opaque]
pub open spec fn replays<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>) -> bool {
    &&& forall|k: nat| #![trigger run(ta, tb, m, ops, k)] k < ops.len() ==> can(tb, m, run(ta, tb, m, ops, k), ops[k as int])
    &&& forall|b: NodeId| #![trigger tb.s_has(b)] tb.s_has(b) && !in_op(tb, b) ==> run(ta, tb, m, ops, ops.len())(img(m, b)) == Some(rec1(ta, tb, m, b))
    &&& forall|k: Key| #![trigger run(ta, tb, m, ops, ops.len())(k)] run(ta, tb, m, ops, ops.len())(k) is Some ==> exists|b: NodeId| tb.s_has(b) && !in_op(tb, b) && k == #[trigger] img(m, b)
}
/// The matchings the property speaks about.
#[verifier::opaque]
pub open spec fn fit<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching) -> bool {
    &&& m.s_get_b(ta.s_root()) == Some(tb.s_root())
    &&& forall|a: NodeId, b: NodeId| #![trigger ta.s_has(a), tb.s_has(b)] ta.s_has(a) && m.s_get_b(a) == Some(b) ==>
            *ta.s_kind(a) == *tb.s_kind(b) && (ta.s_text(a) is Some <==> tb.s_text(b) is Some) && (in_op(ta, a) <==> in_op(tb, b))
}

// ---------------------------------------------------------------- the state in closed form
/// Some operation among the first `k` is selected.
pub open spec fn before<O>(ops: Seq<O>, k: nat, sel: spec_fn(O) -> bool) -> bool {
    exists|j: int| 0 <= j < k && sel(#[trigger] ops[j])
}
proof fn before_step<O>(ops: Seq<O>, k: nat, sel: spec_fn(O) -> bool)
    requires k < ops.len()
    ensures before(ops, k + 1, sel) == (before(ops, k, sel) || sel(ops[k as int]))
{
    if sel(ops[k as int]) { assert(before(ops, k + 1, sel)); }
    if before(ops, k, sel) {
        let j = choose|j: int| 0 <= j < k && sel(#[trigger] ops[j]);
        assert(0 <= j < k + 1 && sel(ops[j]));
    }
}
pub open spec fn f_del<T: TreeTypes>(a: NodeId) -> spec_fn(EditOp<T>) -> bool { |op: EditOp<T>| is_del(op) && node_a(op) == a }
pub open spec fn f_mov<T: TreeTypes>(a: NodeId) -> spec_fn(EditOp<T>) -> bool { |op: EditOp<T>| is_mov(op) && node_a(op) == a }
pub open spec fn f_txt<T: TreeTypes>(a: NodeId) -> spec_fn(EditOp<T>) -> bool { |op: EditOp<T>| is_txt(op) && node_a(op) == a }
pub open spec fn f_upd<T: TreeTypes>(a: NodeId) -> spec_fn(EditOp<T>) -> bool { |op: EditOp<T>| is_upd(op) && node_a(op) == a }
pub open spec fn f_ins<T: TreeTypes>(b: NodeId) -> spec_fn(EditOp<T>) -> bool { |op: EditOp<T>| is_ins(op) && node_b(op) == b }

pub open spec fn closed<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, k: nat, x: Key) -> Option<Rec<TB::Types>> {
    match x {
        Key::Old(a) => {
            let b = m.s_get_b(a)->0;
            if ta.s_has(a) && !in_op(ta, a) && !before(ops, k, f_del(a)) {
                Some(Rec {
                    place: if before(ops, k, f_mov(a)) { place1(tb, m, b) } else { place0(ta, a) },
                    kind: *ta.s_kind(a),
                    text: if before(ops, k, f_txt(a)) { says::<TA::Types>(tb.s_text(b)) } else { says::<TA::Types>(ta.s_text(a)) },
                    props: if before(ops, k, f_upd(a)) { PropState::Final(ta.s_properties(a).s_diff(tb.s_properties(b))) } else { PropState::Own(*ta.s_properties(a)) },
                })
            } else { None }
        },
        Key::New(b) => if before(ops, k, f_ins(b)) {
            Some(Rec { place: place1(tb, m, b), kind: *tb.s_kind(b), text: says::<TA::Types>(tb.s_text(b)), props: PropState::Own(*tb.s_properties(b)) })
        } else { None },
    }
}
/// What operation `k` refers to exists.
proof fn can_now<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, k: nat, st: St<TB::Types>)
    requires tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), fit(ta, tb, m), script_all(ta, tb, m, ops), k < ops.len(),
        forall|x: Key| #[trigger] st(x) == closed(ta, tb, m, ops, k, x),
    ensures can(tb, m, st, ops[k as int])
{
    let op = ops[k as int];
    match op {
        EditOp::Insert { node_b: b, parent_b, position, kind } => {
            assert(is_ins(op));
            assert(want_ins(tb, m, b));
            parent_there(ta, tb, m, ops, k, b, st);
            if before(ops, k, f_ins(b)) {
                let j = choose|j: int| 0 <= j < k && f_ins::<TB::Types>(b)(#[trigger] ops[j]);
                assert(is_ins(ops[j]) && node_b(ops[j]) == b);
            }
            assert(st(Key::New(b)) is None);
        }
        EditOp::Move { node_a: a, node_b: b, new_parent_b, new_position } => {
            assert(is_mov(op));
            assert(want_mov(ta, tb, m, a, b));
            lemma_pair_of(ta, tb, m, a, b);
            not_deleted(ta, tb, m, ops, k, a);
            parent_there(ta, tb, m, ops, k, b, st);
            assert(st(Key::Old(a)) is Some);
        }
        EditOp::Delete { node_a: a } => {
            assert(is_del(op));
            assert(want_del(ta, m, a));
            if before(ops, k, f_del(a)) {
                let j = choose|j: int| 0 <= j < k && f_del::<TB::Types>(a)(#[trigger] ops[j]);
                assert(is_del(ops[j]) && node_a(ops[j]) == a);
            }
            assert(st(Key::Old(a)) is Some);
        }
        EditOp::SetText { node_a: a, node_b: b, text } => {
            assert(is_txt(op));
            assert(want_txt(ta, tb, m, a, b));
            not_deleted(ta, tb, m, ops, k, a);
            assert(st(Key::Old(a)) is Some);
        }
        EditOp::UpdateProperties { node_a: a, node_b: b, changes } => {
            assert(is_upd(op));
            assert(want_upd(ta, tb, m, a, b));
            not_deleted(ta, tb, m, ops, k, a);
            assert(st(Key::Old(a)) is Some);
        }
    }
}
/// Matched nodes are never deleted.
proof fn not_deleted<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, k: nat, a: NodeId)
    requires script_del(ta, m, ops), k <= ops.len(), m.s_get_b(a) is Some
    ensures !before(ops, k, f_del(a))
{
    if before(ops, k, f_del(a)) {
        let j = choose|j: int| 0 <= j < k && f_del::<TB::Types>(a)(#[trigger] ops[j]);
        assert(is_del(ops[j]) && node_a(ops[j]) == a);
        assert(want_del(ta, m, a));
    }
}
/// The record of the parent of an inserted or moved node exists.
proof fn parent_there<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, k: nat, b: NodeId, st: St<TB::Types>)
    requires tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), fit(ta, tb, m), script_all(ta, tb, m, ops), k < ops.len(),
        forall|x: Key| #[trigger] st(x) == closed(ta, tb, m, ops, k, x),
        tb.s_has(b), !in_op(tb, b), tb.s_parent(b) is Some,
        is_ins(ops[k as int]) && node_b(ops[k as int]) == b || is_mov(ops[k as int]),
        script_phases(ops),
    ensures st(img(m, tb.s_parent(b)->0)) is Some
{
    reveal(fit);
    let p = tb.s_parent(b)->0;
    lemma_in_op_step(tb, b);
    assert(tb.s_has(p) && !in_op(tb, p));
    match m.s_get_a(p) {
        Some(a) => {
            pair_of_b(ta, tb, m, a, p);
            not_deleted(ta, tb, m, ops, k, a);
            assert(ta.s_has(a) && tb.s_has(p));
            assert(st(Key::Old(a)) is Some);
        }
        None => {
            if p == tb.s_root() {
                lemma_pair_of(ta, tb, m, ta.s_root(), tb.s_root());
                assert(false);
            }
            assert(want_ins(tb, m, p));
            let j = choose|j: int| 0 <= j < ops.len() && is_ins(#[trigger] ops[j]) && node_b(ops[j]) == p;
            assert(j < k) by {
                let o = ops[k as int];
                if is_mov(o) {
                    if j > k { assert(phase(ops[k as int]) <= phase(ops[j])); }
                } else {
                    assert(tb.s_parent(node_b(ops[k as int])) == Some(node_b(ops[j])));
                }
            }
            assert(f_ins::<TB::Types>(p)(ops[j]));
            assert(before(ops, k, f_ins(p)));
            assert(st(Key::New(p)) is Some);
        }
    }
}
pub proof fn pair_of_b<TA: DiffTree, TB: DiffTree>(ta: &TA, tb: &TB, m: &Matching, a: NodeId, b: NodeId)
    requires m_ok(ta, tb, m), law_shape(ta), law_shape(tb), tb.s_has(b), m.s_get_a(b) == Some(a)
    ensures ta.s_has(a), m.s_get_b(a) == Some(b)
{
    let i = b.ix();
    assert(m.b_to_a@[i] is Some);
    let k = choose|k: int| 0 <= k < m.pairs@.len() && (#[trigger] m.pairs@[k]).1.ix() == i && m.pairs@[k].0 == m.b_to_a@[i]->0;
    assert(tb.s_has(m.pairs@[k].1));
    assert(m.pairs@[k].1.ix() == b.ix());
    assert(m.pairs@[k] == (a, b));
}

// how each operation changes the "happened already" facts
proof fn befores<T: TreeTypes>(ops: Seq<EditOp<T>>, k: nat, n: NodeId)
    requires k < ops.len()
    ensures
        before(ops, k + 1, f_del(n)) == (before(ops, k, f_del(n)) || (is_del(ops[k as int]) && node_a(ops[k as int]) == n)),
        before(ops, k + 1, f_mov(n)) == (before(ops, k, f_mov(n)) || (is_mov(ops[k as int]) && node_a(ops[k as int]) == n)),
        before(ops, k + 1, f_txt(n)) == (before(ops, k, f_txt(n)) || (is_txt(ops[k as int]) && node_a(ops[k as int]) == n)),
        before(ops, k + 1, f_upd(n)) == (before(ops, k, f_upd(n)) || (is_upd(ops[k as int]) && node_a(ops[k as int]) == n)),
        before(ops, k + 1, f_ins(n)) == (before(ops, k, f_ins(n)) || (is_ins(ops[k as int]) && node_b(ops[k as int]) == n)),
{
    before_step(ops, k, f_del(n));
    before_step(ops, k, f_mov(n));
    before_step(ops, k, f_txt(n));
    before_step(ops, k, f_upd(n));
    before_step(ops, k, f_ins(n));
}
/// One operation keeps the closed form.
proof fn closed_step<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, k: nat, st: St<TB::Types>, x: Key)
    requires tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), script_all(ta, tb, m, ops), k < ops.len(),
        forall|x: Key| #[trigger] st(x) == closed(ta, tb, m, ops, k, x),
        can(tb, m, st, ops[k as int]),
    ensures apply(tb, m, st, ops[k as int])(x) == closed(ta, tb, m, ops, k + 1, x)
{
    let op = ops[k as int];
    assert(st(x) == closed(ta, tb, m, ops, k, x));
    match x { Key::Old(a) => { befores(ops, k, a); } Key::New(b) => { befores(ops, k, b); } }
    match op {
        EditOp::Insert { node_b: b, parent_b, position, kind } => {
            assert(is_ins(op));
            assert(ins_data(tb, op));
        }
        EditOp::Move { node_a: a, node_b: b, new_parent_b, new_position } => {
            assert(is_mov(op));
            assert(want_mov(ta, tb, m, a, b) && mov_data(tb, op));
        }
        EditOp::Delete { node_a: a } => {
            assert(is_del(op));
        }
        EditOp::SetText { node_a: a, node_b: b, text } => {
            assert(is_txt(op));
            assert(want_txt(ta, tb, m, a, b) && txt_data(tb, op));
        }
        EditOp::UpdateProperties { node_a: a, node_b: b, changes } => {
            assert(is_upd(op));
            assert(want_upd(ta, tb, m, a, b) && upd_data(ta, tb, op));
        }
    }
}
proof fn closed_run<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, k: nat)
    requires tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), fit(ta, tb, m), script_all(ta, tb, m, ops), k <= ops.len(),
    ensures forall|x: Key| #[trigger] run(ta, tb, m, ops, k)(x) == closed(ta, tb, m, ops, k, x),
    decreases k
{
    if k == 0 {
        assert forall|x: Key| #[trigger] run(ta, tb, m, ops, k)(x) == closed(ta, tb, m, ops, k, x) by {
            match x { Key::Old(a) => {
                assert(!before(ops, 0, f_del(a)) && !before(ops, 0, f_mov(a)) && !before(ops, 0, f_txt(a)) && !before(ops, 0, f_upd(a)));
            } Key::New(b) => { assert(!before(ops, 0, f_ins(b))); } }
        }
    } else {
        let j = (k - 1) as nat;
        closed_run(ta, tb, m, ops, j);
        let st = run(ta, tb, m, ops, j);
        can_now(ta, tb, m, ops, j, st);
        assert forall|x: Key| #[trigger] run(ta, tb, m, ops, k)(x) == closed(ta, tb, m, ops, k, x) by {
            closed_step(ta, tb, m, ops, j, st, x);
        }
    }
}
/// "Some operation of the script does it" is "it was wanted".
proof fn all_del<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, a: NodeId)
    requires script_all(ta, tb, m, ops)
    ensures before(ops, ops.len(), f_del(a)) == want_del(ta, m, a)
{
    if before(ops, ops.len(), f_del(a)) {
        let j = choose|j: int| 0 <= j < ops.len() && f_del::<TB::Types>(a)(#[trigger] ops[j]);
        assert(is_del(ops[j]) && node_a(ops[j]) == a);
    }
    if want_del(ta, m, a) {
        let j = choose|j: int| 0 <= j < ops.len() && is_del(#[trigger] ops[j]) && node_a(ops[j]) == a;
        assert(f_del::<TB::Types>(a)(ops[j]));
    }
}
proof fn all_ins<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, b: NodeId)
    requires script_all(ta, tb, m, ops)
    ensures before(ops, ops.len(), f_ins(b)) == want_ins(tb, m, b)
{
    if before(ops, ops.len(), f_ins(b)) {
        let j = choose|j: int| 0 <= j < ops.len() && f_ins::<TB::Types>(b)(#[trigger] ops[j]);
        assert(is_ins(ops[j]) && node_b(ops[j]) == b);
    }
    if want_ins(tb, m, b) {
        let j = choose|j: int| 0 <= j < ops.len() && is_ins(#[trigger] ops[j]) && node_b(ops[j]) == b;
        assert(f_ins::<TB::Types>(b)(ops[j]));
    }
}
proof fn all_pair<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, a: NodeId, b: NodeId)
    requires script_all(ta, tb, m, ops), m.s_get_b(a) == Some(b)
    ensures
        before(ops, ops.len(), f_mov(a)) == want_mov(ta, tb, m, a, b),
        before(ops, ops.len(), f_txt(a)) == want_txt(ta, tb, m, a, b),
        before(ops, ops.len(), f_upd(a)) == want_upd(ta, tb, m, a, b),
{
    if before(ops, ops.len(), f_mov(a)) {
        let j = choose|j: int| 0 <= j < ops.len() && f_mov::<TB::Types>(a)(#[trigger] ops[j]);
        assert(is_mov(ops[j]) && node_a(ops[j]) == a);
    }
    if want_mov(ta, tb, m, a, b) {
        let j = choose|j: int| 0 <= j < ops.len() && is_mov(#[trigger] ops[j]) && node_a(ops[j]) == a && node_b(ops[j]) == b;
        assert(f_mov::<TB::Types>(a)(ops[j]));
    }
    if before(ops, ops.len(), f_txt(a)) {
        let j = choose|j: int| 0 <= j < ops.len() && f_txt::<TB::Types>(a)(#[trigger] ops[j]);
        assert(is_txt(ops[j]) && node_a(ops[j]) == a);
    }
    if want_txt(ta, tb, m, a, b) {
        let j = choose|j: int| 0 <= j < ops.len() && is_txt(#[trigger] ops[j]) && node_a(ops[j]) == a && node_b(ops[j]) == b;
        assert(f_txt::<TB::Types>(a)(ops[j]));
    }
    if before(ops, ops.len(), f_upd(a)) {
        let j = choose|j: int| 0 <= j < ops.len() && f_upd::<TB::Types>(a)(#[trigger] ops[j]);
        assert(is_upd(ops[j]) && node_a(ops[j]) == a);
    }
    if want_upd(ta, tb, m, a, b) {
        let j = choose|j: int| 0 <= j < ops.len() && is_upd(#[trigger] ops[j]) && node_a(ops[j]) == a && node_b(ops[j]) == b;
        assert(f_upd::<TB::Types>(a)(ops[j]));
    }
}
/// The final record of a matched node.
proof fn final_pair<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>, a: NodeId, b: NodeId)
    requires tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), fit(ta, tb, m), script_all(ta, tb, m, ops),
        tb.s_has(b), !in_op(tb, b), m.s_get_a(b) == Some(a)
    ensures closed(ta, tb, m, ops, ops.len(), Key::Old(a)) == Some(rec1(ta, tb, m, b))
{
    reveal(fit);
    pair_of_b(ta, tb, m, a, b);
    all_del(ta, tb, m, ops, a);
    all_pair(ta, tb, m, ops, a, b);
    lemma_pair_of(ta, tb, m, ta.s_root(), tb.s_root());
    assert(!in_op(ta, a));
    assert(vis_pair(ta, tb, m, a, b));
    // place
    if !want_mov(ta, tb, m, a, b) {
        if ta.s_parent(a) is None {
            assert(a == ta.s_root());
            assert(tb.s_parent(b) is None);
        } else if tb.s_parent(b) is None {
            assert(b == tb.s_root());
            assert(false);
        } else {
            let pa = ta.s_parent(a)->0;
            let pb = tb.s_parent(b)->0;
            assert(ta.s_has(pa) && tb.s_has(pb));
            assert(m.s_get_b(pa) == Some(pb));
            lemma_pair_of(ta, tb, m, pa, pb);
            assert(img(m, pb) == Key::Old(pa));
        }
        assert(place0(ta, a) == place1(tb, m, b));
    }
    // text
    if !want_txt(ta, tb, m, a, b) {
        assert(says::<TA::Types>(ta.s_text(a)) == says::<TA::Types>(tb.s_text(b)));
    }
}
/// Everything above, once for all nodes.
pub proof fn replay_all<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, m: &Matching, ops: Seq<EditOp<TB::Types>>)
    requires tree_ok(ta), tree_ok(tb), m_ok(ta, tb, m), fit(ta, tb, m), script_all(ta, tb, m, ops),
    ensures replays(ta, tb, m, ops)
{
    reveal(replays);
    let n = ops.len();
    assert forall|k: nat| #![trigger run(ta, tb, m, ops, k)] k < ops.len() implies can(tb, m, run(ta, tb, m, ops, k), ops[k as int]) by {
        closed_run(ta, tb, m, ops, k);
        can_now(ta, tb, m, ops, k, run(ta, tb, m, ops, k));
    }
    closed_run(ta, tb, m, ops, n);
    assert forall|b: NodeId| #![trigger tb.s_has(b)] tb.s_has(b) && !in_op(tb, b) implies run(ta, tb, m, ops, n)(img(m, b)) == Some(rec1(ta, tb, m, b)) by {
        match m.s_get_a(b) {
            Some(a) => { final_pair(ta, tb, m, ops, a, b); }
            None => {
                all_ins(ta, tb, m, ops, b);
                if b == tb.s_root() { reveal(fit); lemma_pair_of(ta, tb, m, ta.s_root(), tb.s_root()); }
            }
        }
    }
    assert forall|k: Key| #![trigger run(ta, tb, m, ops, n)(k)] run(ta, tb, m, ops, n)(k) is Some implies exists|b: NodeId| tb.s_has(b) && !in_op(tb, b) && k == #[trigger] img(m, b) by {
        match k {
            Key::Old(a) => {
                all_del(ta, tb, m, ops, a);
                let b = m.s_get_b(a)->0;
                lemma_pair_of(ta, tb, m, a, b);
                reveal(fit);
                assert(tb.s_has(b) && !in_op(tb, b) && k == img(m, b));
            }
            Key::New(b) => {
                all_ins(ta, tb, m, ops, b);
                assert(tb.s_has(b) && !in_op(tb, b) && k == img(m, b));
            }
        }
    }
}

} // verus!
}
