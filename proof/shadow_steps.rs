// H03, H01: what the patches of an edit script have to be, and how the working copy develops.
pub mod shadow_steps {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe_spec::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_mut::up;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_patch::*;
use crate::shadow::*;
use crate::shadow::real;
use crate::shadow_trees::*;
verus! {

pub type Sh = Map<NodeId, NodeId>;
/// Everything that stays the same while the script is turned into patches.
#[verifier::reject_recursive_types(TB)]
pub struct Job<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>> {
    pub ta: OpaqueAwareTree<'a>,
    pub tb: TB,
    pub mt: Matching,
    pub ops: Seq<EditOp<HtmlTreeTypes<'a>>>,
    pub r: NodeId,
}
pub open spec fn pos_of<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId) -> int { j.tb.s_position(b) as int }
pub open spec fn up_b<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId) -> NodeId { j.tb.s_parent(b)->0 }
/// The node of the old page matched with `b`.
pub open spec fn mate<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId) -> Option<NodeId> { j.mt.s_get_a(b) }
/// Of the same kind; what is opaque on the old page is so on the new one.
pub open spec fn partners<TA: DiffTree, TB: DiffTree<Types = TA::Types>>(ta: &TA, tb: &TB, a: NodeId, b: NodeId) -> bool {
    *ta.s_kind(a) == *tb.s_kind(b) && (ta.s_is_opaque(a) ==> tb.s_is_opaque(b))
}
/// Two pages, a matching that respects opaque nodes, and a complete edit script.
#[verifier::opaque]
pub open spec fn ready<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>) -> bool {
    &&& tree_ok(&j.ta) && tree_ok(&j.tb)
    &&& m_ok(&j.ta, &j.tb, &j.mt)
    &&& forall|k: int| #![trigger j.mt.pairs@[k]] 0 <= k < j.mt.pairs@.len() ==> atomic(&j.ta, &j.tb, &j.mt, j.mt.pairs@[k].0, j.mt.pairs@[k].1)
    &&& forall|k: int| #![trigger j.mt.pairs@[k]] 0 <= k < j.mt.pairs@.len() ==> partners(&j.ta, &j.tb, j.mt.pairs@[k].0, j.mt.pairs@[k].1)
    &&& mate(j, j.tb.s_root()) == Some(j.ta.s_root())
    &&& script_all(&j.ta, &j.tb, &j.mt, j.ops)
}
// ---- what happened in the first k operations
pub open spec fn gone<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, a: NodeId) -> bool {
    exists|l: int| 0 <= l < k && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a
}
pub open spec fn born<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b: NodeId) -> bool {
    exists|l: int| 0 <= l < k && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == b
}
pub open spec fn shifted<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, a: NodeId) -> bool {
    exists|l: int| 0 <= l < k && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a
}
pub open spec fn vis<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId) -> bool { j.tb.s_has(b) && !in_op(&j.tb, b) }
/// Has a node in the working copy.
pub open spec fn named<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b: NodeId) -> bool {
    j.tb.s_has(b) && (mate(j, b) is Some || born(j, k, b))
}
/// Its node is where it belongs.
pub open spec fn settled<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b: NodeId) -> bool {
    vis(j, b) && b != j.tb.s_root()
    && (born(j, k, b) || (mate(j, b) is Some && (!want_mov(&j.ta, &j.tb, &j.mt, mate(j, b)->0, b) || shifted(j, k, mate(j, b)->0))))
}
// ---- the state after k operations
#[verifier::opaque]
pub open spec fn st_old<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>) -> bool {
    &&& slotted(m, j.r)
    &&& forall|a: NodeId| #![trigger j.ta.s_has(a)] j.ta.s_has(a) ==> real(m, j.r, a)
    &&& slot_top(m, j.r, j.ta.s_root())
}
#[verifier::opaque]
pub open spec fn st_name<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>, sh: Sh) -> bool {
    &&& forall|b: NodeId| #![trigger sh.contains_key(b)] sh.contains_key(b) <==> named(j, k, b)
    &&& forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) ==> real(m, j.r, sh[b])
    &&& forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) && mate(j, b) is Some ==> sh[b] == mate(j, b)->0
    &&& forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) && mate(j, b) is None ==> !j.ta.s_has(sh[b])
    &&& forall|b: NodeId, c: NodeId| #![trigger sh[b], sh[c]] sh.contains_key(b) && sh.contains_key(c) && sh[b] == sh[c] ==> b == c
}
#[verifier::opaque]
pub open spec fn st_up<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>) -> bool {
    forall|x: NodeId| #![trigger m.par(x)] m.has(x) && x != j.r && m.par(x) is None ==> gone(j, k, x)
}
#[verifier::opaque]
pub open spec fn st_stay<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>) -> bool {
    forall|a: NodeId| #![trigger j.ta.s_parent(a)] j.ta.s_has(a) && !shifted(j, k, a) && !gone(j, k, a) ==>
        m.par(a) == j.ta.s_parent(a) || slot_top(m, j.r, a)
}
/// `b`'s node is the right child of the right node.
pub open spec fn at_home<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, b: NodeId) -> bool {
    let p = up_b(j, b);
    sh.contains_key(b) && sh.contains_key(p) && m.par(sh[b]) == Some(sh[p]) && pos_of(j, b) < m.kids(sh[p]).len() && m.kids(sh[p])[pos_of(j, b)] == sh[b]
}
#[verifier::opaque]
pub open spec fn st_home<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>, sh: Sh) -> bool {
    forall|b: NodeId| #![trigger sh[b]] settled(j, k, b) ==> at_home(j, m, sh, b)
}
#[verifier::opaque]
pub open spec fn going<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>, sh: Sh) -> bool {
    &&& st_old(j, m) && st_name(j, k, m, sh) && st_up(j, k, m) && st_stay(j, k, m) && st_home(j, k, m, sh)
}

// ---- what one operation does
/// `x` (new, or taken from its place) has no parent; the places of the others are unchanged.
#[verifier::opaque]
pub open spec fn loose<'a>(z: ShM<'a>, c: ShM<'a>, r: NodeId, x: NodeId) -> bool {
    &&& forall|y: NodeId| #![trigger c.has(y)] z.has(y) ==> c.has(y)
    &&& forall|y: NodeId| #![trigger c.par(y)] z.has(y) && y != x ==> c.par(y) == z.par(y)
    &&& c.has(x) && c.par(x) is None && x != r
    &&& forall|y: NodeId, i: int| #![trigger z.kids(y)[i]] z.has(y) && real(z, r, y) && 0 <= i < z.kids(y).len() && z.kids(y)[i] != x ==>
            i < c.kids(y).len() && c.kids(y)[i] == z.kids(y)[i]
    &&& forall|y: NodeId| #![trigger c.par(y)] c.has(y) && !z.has(y) && y != x ==> c.par(y) is Some && c.par(y) != Some(r)
}
/// `n` went to its place; a node that was there went to a slot.
#[verifier::opaque]
pub open spec fn nudge<'a>(c: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] c.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] c.has(y) && y != n ==>
            b.par(y) == c.par(y) || (c.par(y) == Some(p) && slot_top(b, r, y) && b.par(y) != Some(r) && pos < c.kids(p).len() && c.kids(p)[pos] == y)
    &&& b.par(n) == Some(p) && pos < b.kids(p).len() && b.kids(p)[pos] == n
    &&& forall|y: NodeId| #![trigger b.kids(y)] c.has(y) && y != p && y != r ==> b.kids(y) == c.kids(y)
    &&& forall|i: int| #![trigger c.kids(p)[i]] 0 <= i < c.kids(p).len() && i != pos ==> i < b.kids(p).len() && b.kids(p)[i] == c.kids(p)[i]
    &&& forall|y: NodeId| #![trigger b.par(y)] b.has(y) && !c.has(y) ==> b.par(y) is Some
    &&& forall|y: NodeId| #![trigger b.par(y)] c.has(y) && y != n && slot_top(c, r, y) ==> b.par(y) == c.par(y) && slot_top(b, r, y)
}
pub proof fn sput_nudge<'a>(c: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>)
    requires slotted(c, r), slotted(b, r), real(c, r, p), c.has(n), c.par(n) is None, n != r, pos >= 0, sput(c, b, r, p, pos, n, slot)
    ensures nudge(c, b, r, p, pos, n)
{
    reveal(nudge);
    let o = c.kids(p);
    assert(n != p || b.par(n) == Some(p));
    if pos < o.len() { kid_index(c, p, pos); }
    assert forall|y: NodeId| #![trigger b.par(y)] c.has(y) && y != n && slot_top(c, r, y) implies b.par(y) == c.par(y) && slot_top(b, r, y) by {
        let s = c.par(y)->0;
        assert(c.has(s));
        assert(c.par(s) == Some(r));
        if pos < o.len() { assert(o[pos] != s); assert(o[pos] != y) by { assert(c.par(o[pos]) == Some(p)); } }
        assert(s != n);
        assert(b.par(s) == c.par(s));
    }
    if pos < o.len() {
        let s = b.kids(r).last();
        assert(s != r);
        assert(b.par(s) == Some(r));
    }
}
pub proof fn created_loose<'a>(z: ShM<'a>, c: ShM<'a>, r: NodeId, n: NodeId, d: NodeData<HtmlTreeTypes<'a>>)
    requires slotted(z, r), created(z, c, n, d)
    ensures loose(z, c, r, n), c.kids(r) == z.kids(r)
{
    reveal(loose);
}
pub proof fn lift_loose<'a>(z: ShM<'a>, c: ShM<'a>, r: NodeId, x: NodeId)
    requires slotted(z, r), real(z, r, x), z.par(x) is Some, slift(z, c, r, x) || blanked(z, c, x), trees(c)
    ensures loose(z, c, r, x)
{
    reveal(loose);
    let q = z.par(x)->0;
    assert(z.has(q));
    assert(z.kids(q).contains(x));
    let i0 = z.kids(q).index_of(x);
    assert(0 <= i0 < z.kids(q).len() && z.kids(q)[i0] == x);
    assert forall|y: NodeId, i: int| #![trigger z.kids(y)[i]] z.has(y) && real(z, r, y) && 0 <= i < z.kids(y).len() && z.kids(y)[i] != x implies
            i < c.kids(y).len() && c.kids(y)[i] == z.kids(y)[i] by {
        if y != q { assert(c.kids(y) == z.kids(y)); }
        else if slot_top(z, r, x) && slift(z, c, r, x) { assert(z.par(q) == Some(r)); }
        else { assert(blanked(z, c, x)); assert(i != i0); }
    }
    if blanked(z, c, x) { assert(q != r); }
}

// ---- facts about the script
pub proof fn mates<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId)
    requires ready(j), j.tb.s_has(b), mate(j, b) is Some
    ensures j.ta.s_has(mate(j, b)->0), j.mt.s_get_b(mate(j, b)->0) == Some(b), atomic(&j.ta, &j.tb, &j.mt, mate(j, b)->0, b)
{
    reveal(ready);
    let m = &j.mt;
    let i = b.ix();
    assert(m.b_to_a@[i] is Some);
    let k = choose|k: int| 0 <= k < m.pairs@.len() && (#[trigger] m.pairs@[k]).1.ix() == i && m.pairs@[k].0 == m.b_to_a@[i]->0;
    assert(j.tb.s_has(m.pairs@[k].1));
    assert(m.pairs@[k].1.ix() == b.ix());
}
pub proof fn mates_a<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, a: NodeId)
    requires ready(j), j.ta.s_has(a), j.mt.s_get_b(a) is Some
    ensures j.tb.s_has(j.mt.s_get_b(a)->0), mate(j, j.mt.s_get_b(a)->0) == Some(a)
{
    reveal(ready);
    lemma_pair_of(&j.ta, &j.tb, &j.mt, a, j.mt.s_get_b(a)->0);
}
/// One operation more.
pub proof fn nexts<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int)
    requires 0 <= k < j.ops.len()
    ensures
        forall|a: NodeId| #[trigger] gone(j, k + 1, a) <==> gone(j, k, a) || (is_del(j.ops[k]) && node_a(j.ops[k]) == a),
        forall|b: NodeId| #[trigger] born(j, k + 1, b) <==> born(j, k, b) || (is_ins(j.ops[k]) && node_b(j.ops[k]) == b),
        forall|a: NodeId| #[trigger] shifted(j, k + 1, a) <==> shifted(j, k, a) || (is_mov(j.ops[k]) && node_a(j.ops[k]) == a),
{
    assert forall|a: NodeId| #[trigger] gone(j, k + 1, a) implies gone(j, k, a) || (is_del(j.ops[k]) && node_a(j.ops[k]) == a) by {
        let l = choose|l: int| 0 <= l < k + 1 && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a;
        if l < k { assert(gone(j, k, a)); }
    }
    assert forall|a: NodeId| gone(j, k, a) || (is_del(j.ops[k]) && node_a(j.ops[k]) == a) implies #[trigger] gone(j, k + 1, a) by {
        if gone(j, k, a) { let l = choose|l: int| 0 <= l < k && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a; assert(0 <= l < k + 1 && is_del(j.ops[l])); }
    }
    assert forall|a: NodeId| #[trigger] born(j, k + 1, a) implies born(j, k, a) || (is_ins(j.ops[k]) && node_b(j.ops[k]) == a) by {
        let l = choose|l: int| 0 <= l < k + 1 && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == a;
        if l < k { assert(born(j, k, a)); }
    }
    assert forall|a: NodeId| born(j, k, a) || (is_ins(j.ops[k]) && node_b(j.ops[k]) == a) implies #[trigger] born(j, k + 1, a) by {
        if born(j, k, a) { let l = choose|l: int| 0 <= l < k && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == a; assert(0 <= l < k + 1 && is_ins(j.ops[l])); }
    }
    assert forall|a: NodeId| #[trigger] shifted(j, k + 1, a) implies shifted(j, k, a) || (is_mov(j.ops[k]) && node_a(j.ops[k]) == a) by {
        let l = choose|l: int| 0 <= l < k + 1 && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a;
        if l < k { assert(shifted(j, k, a)); }
    }
    assert forall|a: NodeId| shifted(j, k, a) || (is_mov(j.ops[k]) && node_a(j.ops[k]) == a) implies #[trigger] shifted(j, k + 1, a) by {
        if shifted(j, k, a) { let l = choose|l: int| 0 <= l < k && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a; assert(0 <= l < k + 1 && is_mov(j.ops[l])); }
    }
}
pub proof fn nothing_yet<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>)
    ensures forall|a: NodeId| !#[trigger] gone(j, 0, a), forall|b: NodeId| !#[trigger] born(j, 0, b), forall|a: NodeId| !#[trigger] shifted(j, 0, a)
{}
/// A different node has another parent or another position.
pub proof fn one_place<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId, c: NodeId)
    requires ready(j), j.tb.s_has(b), j.tb.s_has(c), j.tb.s_parent(b) is Some, j.tb.s_parent(b) == j.tb.s_parent(c), pos_of(j, b) == pos_of(j, c)
    ensures b == c
{
    reveal(ready);
    assert(j.tb.s_position(b) < usize::MAX || true);
    let x = j.tb.s_position(b);
    let y = j.tb.s_position(c);
    assert(j.tb.s_children(up_b(j, b))[x as int] == b);
    assert(j.tb.s_children(up_b(j, c))[y as int] == c);
}
pub proof fn roots<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>)
    requires ready(j)
    ensures j.tb.s_has(j.tb.s_root()), j.ta.s_has(j.ta.s_root()), mate(j, j.tb.s_root()) == Some(j.ta.s_root()), j.tb.s_parent(j.tb.s_root()) is None, j.ta.s_parent(j.ta.s_root()) is None
{ reveal(ready); }
pub proof fn has_up<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId)
    requires ready(j), j.tb.s_has(b), b != j.tb.s_root()
    ensures j.tb.s_parent(b) is Some, j.tb.s_has(up_b(j, b)), up_b(j, b) != b
{ reveal(ready); assert(j.tb.s_height(b) < j.tb.s_height(up_b(j, b))); }
pub proof fn not_self<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId)
    requires ready(j), j.tb.s_has(b), j.tb.s_parent(b) is Some
    ensures up_b(j, b) != b, j.tb.s_has(up_b(j, b)), b != j.tb.s_root()
{
    reveal(ready);
    assert(j.tb.s_height(b) < j.tb.s_height(up_b(j, b)));
}

// ---- the steps
/// What the k-th operation places: a new node, or the matched old node.
pub open spec fn places<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b0: NodeId, x: NodeId) -> bool {
    &&& 0 <= k < j.ops.len() && vis(j, b0) && j.tb.s_parent(b0) is Some && !settled(j, k, b0) && sh.contains_key(up_b(j, b0)) && node_b(j.ops[k]) == b0
    &&& ((is_ins(j.ops[k]) && !z.has(x) && mate(j, b0) is None)
        || (is_mov(j.ops[k]) && node_a(j.ops[k]) == x && mate(j, b0) == Some(x) && want_mov(&j.ta, &j.tb, &j.mt, x, b0)))
}
/// Parents and slots over both halves of the step.
pub open spec fn carried<'a>(z: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] z.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] z.has(y) && y != x ==> b.par(y) == z.par(y) || (slot_top(b, r, y) && b.par(y) != Some(r))
    &&& forall|y: NodeId| #![trigger b.par(y)] z.has(y) && y != x && slot_top(z, r, y) ==> b.par(y) == z.par(y) && slot_top(b, r, y)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.has(y) && !z.has(y) && y != x ==> b.par(y) is Some
}
pub proof fn both_carried<'a>(z: ShM<'a>, c: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, x: NodeId)
    requires slotted(z, r), slotted(c, r), loose(z, c, r, x), nudge(c, b, r, p, pos, x), z.has(x) ==> real(z, r, x)
    ensures carried(z, b, r, x)
{
    reveal(loose); reveal(nudge);
    assert forall|y: NodeId| #![trigger b.par(y)] z.has(y) && y != x && slot_top(z, r, y) implies b.par(y) == z.par(y) && slot_top(b, r, y) by {
        let s = z.par(y)->0;
        assert(z.has(s) && s != x);
        assert(c.par(y) == z.par(y));
        assert(c.par(s) == z.par(s));
        assert(slot_top(c, r, y));
        assert(c.has(y));
    }
    assert forall|y: NodeId| #![trigger b.has(y)] z.has(y) implies b.has(y) by { assert(c.has(y)); }
    assert forall|y: NodeId| #![trigger b.par(y)] z.has(y) && y != x implies b.par(y) == z.par(y) || (slot_top(b, r, y) && b.par(y) != Some(r)) by { assert(c.has(y)); assert(c.par(y) == z.par(y)); }
    assert forall|y: NodeId| #![trigger b.par(y)] b.has(y) && !z.has(y) && y != x implies b.par(y) is Some by { if c.has(y) { assert(c.par(y) is Some); } }
}
pub proof fn place_old<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, b: ShM<'a>, sh: Sh, b0: NodeId, x: NodeId)
    requires ready(j), places(j, k, z, sh, b0, x), st_old(j, z), st_name(j, k, z, sh), carried(z, b, j.r, x), slotted(b, j.r), b.par(x) == Some(sh[up_b(j, b0)]), x != j.r, b.has(x)
    ensures st_old(j, b), forall|y: NodeId| #![trigger b.has(y)] real(z, j.r, y) ==> real(b, j.r, y), real(b, j.r, x)
{
    reveal(st_old); reveal(st_name);
    let p = sh[up_b(j, b0)];
    assert(real(z, j.r, p));
    assert(b.has(x)) by { if is_mov(j.ops[k]) { mates(j, b0); } }
    assert forall|y: NodeId| #![trigger b.has(y)] real(z, j.r, y) implies real(b, j.r, y) by { let q = b.par(y); }
    roots(j);
    assert(sh.contains_key(j.tb.s_root()));
    assert(sh[j.tb.s_root()] == j.ta.s_root());
    not_self(j, b0);
    assert(x != j.ta.s_root()) by { if is_mov(j.ops[k]) { mates(j, b0); assert(sh.contains_key(b0)); assert(sh[b0] == x); } else { assert(z.has(j.ta.s_root())); } }
    assert(z.has(j.ta.s_root()));
    let q = b.par(j.ta.s_root());
    assert forall|a: NodeId| #![trigger j.ta.s_has(a)] j.ta.s_has(a) implies real(b, j.r, a) by { assert(real(z, j.r, a)); assert(b.has(a)); }
}
pub proof fn place_name<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, b: ShM<'a>, sh: Sh, b0: NodeId, x: NodeId)
    requires ready(j), places(j, k, z, sh, b0, x), st_old(j, z), st_name(j, k, z, sh),
        forall|y: NodeId| #![trigger b.has(y)] real(z, j.r, y) ==> real(b, j.r, y), real(b, j.r, x), forall|y: NodeId| #![trigger b.has(y)] z.has(y) ==> b.has(y)
    ensures st_name(j, k + 1, b, sh.insert(b0, x)), forall|c: NodeId| #![trigger sh[c]] sh.contains_key(c) && c != b0 ==> sh[c] != x
{
    reveal(st_old); reveal(st_name);
    let t = sh.insert(b0, x);
    nexts(j, k);
    if is_mov(j.ops[k]) { mates(j, b0); assert(sh.contains_key(b0)); assert(sh[b0] == x); }
    assert forall|c: NodeId| #![trigger sh[c]] sh.contains_key(c) && c != b0 implies sh[c] != x by { if is_mov(j.ops[k]) { assert(sh[c] != sh[b0]); } else { assert(z.has(sh[c])); } }
    assert forall|c: NodeId| #![trigger t.contains_key(c)] t.contains_key(c) <==> named(j, k + 1, c) by { assert(sh.contains_key(c) <==> named(j, k, c)); }
    assert forall|c: NodeId| #![trigger t[c]] t.contains_key(c) implies real(b, j.r, t[c]) by { if c != b0 { assert(t[c] == sh[c]); assert(real(z, j.r, sh[c])); assert(b.has(sh[c])); } }
    assert forall|c: NodeId| #![trigger t[c]] t.contains_key(c) && mate(j, c) is Some implies t[c] == mate(j, c)->0 by { if c != b0 { assert(t[c] == sh[c]); } }
    assert forall|c: NodeId| #![trigger t[c]] t.contains_key(c) && mate(j, c) is None implies !j.ta.s_has(t[c]) by { if c != b0 { assert(t[c] == sh[c]); } else { if j.ta.s_has(x) { assert(real(z, j.r, x)); } } }
    assert forall|c: NodeId, d: NodeId| #![trigger t[c], t[d]] t.contains_key(c) && t.contains_key(d) && t[c] == t[d] implies c == d by {
        if c != b0 { assert(t[c] == sh[c]); }
        if d != b0 { assert(t[d] == sh[d]); }
    }
}
pub proof fn place_rest<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, b: ShM<'a>, sh: Sh, b0: NodeId, x: NodeId)
    requires ready(j), places(j, k, z, sh, b0, x), st_old(j, z), st_up(j, k, z), st_stay(j, k, z), carried(z, b, j.r, x), b.par(x) is Some
    ensures st_up(j, k + 1, b), st_stay(j, k + 1, b)
{
    reveal(st_old); reveal(st_up); reveal(st_stay);
    nexts(j, k);
    assert forall|y: NodeId| #![trigger b.par(y)] b.has(y) && y != j.r && b.par(y) is None implies gone(j, k + 1, y) by {
        assert(y != x);
        assert(z.has(y));
        assert(z.par(y) is None);
    }
    assert forall|a: NodeId| #![trigger j.ta.s_parent(a)] j.ta.s_has(a) && !shifted(j, k + 1, a) && !gone(j, k + 1, a) implies b.par(a) == j.ta.s_parent(a) || slot_top(b, j.r, a) by {
        assert(real(z, j.r, a));
        if a == x { assert(is_ins(j.ops[k])); }
        assert(!shifted(j, k, a) && !gone(j, k, a));
        let q = b.par(a);
    }
}
pub proof fn home_keep<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, c: ShM<'a>, b: ShM<'a>, sh: Sh, b0: NodeId, x: NodeId, d: NodeId)
    requires ready(j), places(j, k, z, sh, b0, x), st_name(j, k, z, sh), at_home(j, z, sh, d), settled(j, k, d), d != b0,
        trees(c), c.has(sh[up_b(j, b0)]), loose(z, c, j.r, x), nudge(c, b, j.r, sh[up_b(j, b0)], pos_of(j, b0), x), sh[d] != x
    ensures at_home(j, b, sh, d)
{
    let p = sh[up_b(j, b0)];
    let e = up_b(j, d);
    let q = sh[e];
    let y = sh[d];
    let i = pos_of(j, d);
    assert(real(z, j.r, q) && real(z, j.r, y)) by { reveal(st_name); }
    assert(z.kids(q)[i] == y);
    assert(c.kids(q)[i] == y && i < c.kids(q).len() && c.par(y) == z.par(y) && c.has(y) && c.has(q)) by { reveal(loose); }
    has_up(j, d);
    if q == p {
        assert(e == up_b(j, b0)) by { reveal(st_name); }
        if i == pos_of(j, b0) { one_place(j, d, b0); }
        if pos_of(j, b0) < c.kids(p).len() && c.kids(p)[pos_of(j, b0)] == y { assert(c.kids(p).no_duplicates()); }
        reveal(nudge);
        let g = b.par(y);
    } else {
        reveal(nudge);
        let g = b.par(y);
        assert(b.kids(q) == c.kids(q));
    }
}
pub proof fn place_home<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, c: ShM<'a>, b: ShM<'a>, sh: Sh, b0: NodeId, x: NodeId)
    requires ready(j), places(j, k, z, sh, b0, x), st_name(j, k, z, sh), st_home(j, k, z, sh),
        trees(c), c.has(sh[up_b(j, b0)]), loose(z, c, j.r, x), nudge(c, b, j.r, sh[up_b(j, b0)], pos_of(j, b0), x),
        forall|d: NodeId| #![trigger sh[d]] sh.contains_key(d) && d != b0 ==> sh[d] != x
    ensures st_home(j, k + 1, b, sh.insert(b0, x))
{
    let t = sh.insert(b0, x);
    let p = sh[up_b(j, b0)];
    nexts(j, k);
    not_self(j, b0);
    assert forall|d: NodeId| #![trigger t[d]] settled(j, k + 1, d) implies at_home(j, b, t, d) by {
        if d == b0 {
            assert(t[up_b(j, b0)] == p);
            reveal(nudge);
        } else {
            assert(settled(j, k, d)) by {
                if mate(j, d) is Some { mates(j, d); if is_mov(j.ops[k]) && mate(j, d)->0 == x { mates(j, b0); } }
            }
            assert(at_home(j, z, sh, d)) by { reveal(st_home); let q = sh[d]; }
            home_keep(j, k, z, c, b, sh, b0, x, d);
            assert(t[d] == sh[d]);
            let e = up_b(j, d);
            if e == b0 {
                reveal(st_name);
                assert(sh.contains_key(b0));
                if is_mov(j.ops[k]) { assert(sh[b0] == x); } else { assert(named(j, k, b0)); assert(born(j, k, b0)); }
            }
            assert(t[e] == sh[e]);
        }
    }
    reveal(st_home);
}
/// The state after an insertion or a move.
pub proof fn step_place<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, c: ShM<'a>, b: ShM<'a>, sh: Sh, b0: NodeId, x: NodeId)
    requires ready(j), going(j, k, z, sh), places(j, k, z, sh, b0, x),
        slotted(c, j.r), slotted(b, j.r), loose(z, c, j.r, x), nudge(c, b, j.r, sh[up_b(j, b0)], pos_of(j, b0), x), b.has(x)
    ensures going(j, k + 1, b, sh.insert(b0, x))
{
    reveal(going);
    let p = sh[up_b(j, b0)];
    assert(real(z, j.r, p)) by { reveal(st_name); }
    assert(slotted(z, j.r)) by { reveal(st_old); }
    assert(c.has(p) && x != j.r) by { reveal(loose); }
    assert(b.par(x) == Some(p)) by { reveal(nudge); }
    if is_mov(j.ops[k]) { mates(j, b0); assert(real(z, j.r, x)) by { reveal(st_old); } }
    both_carried(z, c, b, j.r, p, pos_of(j, b0), x);
    place_old(j, k, z, b, sh, b0, x);
    place_name(j, k, z, b, sh, b0, x);
    place_rest(j, k, z, b, sh, b0, x);
    place_home(j, k, z, c, b, sh, b0, x);
}
/// The state after a deletion.
pub proof fn step_gone<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, c: ShM<'a>, sh: Sh, x: NodeId)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len(), is_del(j.ops[k]), node_a(j.ops[k]) == x, want_del(&j.ta, &j.mt, x),
        slotted(c, j.r), loose(z, c, j.r, x)
    ensures going(j, k + 1, c, sh)
{
    reveal(going);
    nexts(j, k);
    assert(slotted(z, j.r) && real(z, j.r, x)) by { reveal(st_old); }
    assert forall|d: NodeId| #![trigger sh[d]] sh.contains_key(d) implies sh[d] != x by {
        reveal(st_name);
        if mate(j, d) is Some { assert(named(j, k, d)); mates(j, d); }
    }
    gone_carried(z, c, j.r, x);
    assert forall|y: NodeId| #![trigger c.has(y)] real(z, j.r, y) implies real(c, j.r, y) by { let q = c.par(y); }
    gone_old(j, z, c, x);
    assert(st_name(j, k + 1, c, sh)) by {
        reveal(st_name);
        assert forall|d: NodeId| #![trigger sh.contains_key(d)] sh.contains_key(d) <==> named(j, k + 1, d) by { assert(sh.contains_key(d) <==> named(j, k, d)); }
        assert forall|d: NodeId| #![trigger sh[d]] sh.contains_key(d) implies real(c, j.r, sh[d]) by { assert(real(z, j.r, sh[d])); assert(c.has(sh[d])); }
    }
    gone_rest(j, k, z, c, x);
    assert forall|d: NodeId| #![trigger sh[d]] settled(j, k + 1, d) implies at_home(j, c, sh, d) by {
        assert(settled(j, k, d));
        assert(at_home(j, z, sh, d)) by { reveal(st_home); let q = sh[d]; }
        let q = sh[up_b(j, d)];
        assert(real(z, j.r, q) && real(z, j.r, sh[d])) by { reveal(st_name); }
        assert(z.kids(q)[pos_of(j, d)] == sh[d]);
        reveal(loose);
        let g = c.par(sh[d]);
    }
    reveal(st_home);
}
/// `x` left: parents and slots of the others.
pub open spec fn left_alone<'a>(z: ShM<'a>, c: ShM<'a>, r: NodeId, x: NodeId) -> bool {
    &&& forall|y: NodeId| #![trigger c.has(y)] z.has(y) ==> c.has(y)
    &&& forall|y: NodeId| #![trigger c.par(y)] z.has(y) && y != x ==> c.par(y) == z.par(y)
    &&& c.par(x) is None
    &&& forall|y: NodeId| #![trigger c.par(y)] z.has(y) && y != x && slot_top(z, r, y) ==> slot_top(c, r, y)
    &&& forall|y: NodeId| #![trigger c.par(y)] c.has(y) && !z.has(y) && y != x ==> c.par(y) is Some
}
pub proof fn gone_carried<'a>(z: ShM<'a>, c: ShM<'a>, r: NodeId, x: NodeId)
    requires slotted(z, r), real(z, r, x), loose(z, c, r, x)
    ensures left_alone(z, c, r, x), x != r
{
    reveal(loose);
    assert forall|y: NodeId| #![trigger c.par(y)] z.has(y) && y != x && slot_top(z, r, y) implies slot_top(c, r, y) by {
        let s = z.par(y)->0;
        assert(z.has(s) && s != x);
        assert(c.par(s) == z.par(s));
    }
}
pub proof fn gone_old<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, z: ShM<'a>, c: ShM<'a>, x: NodeId)
    requires ready(j), st_old(j, z), left_alone(z, c, j.r, x), j.mt.s_get_b(x) is None, slotted(c, j.r), x != j.r
    ensures st_old(j, c)
{
    reveal(st_old);
    roots(j);
    assert(real(z, j.r, j.ta.s_root()));
    mates(j, j.tb.s_root());
    let q = c.par(j.ta.s_root());
    assert forall|a: NodeId| #![trigger j.ta.s_has(a)] j.ta.s_has(a) implies real(c, j.r, a) by { assert(real(z, j.r, a)); assert(c.has(a)); let q = c.par(a); }
}
pub proof fn gone_rest<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, c: ShM<'a>, x: NodeId)
    requires ready(j), 0 <= k < j.ops.len(), is_del(j.ops[k]), node_a(j.ops[k]) == x, st_old(j, z), st_up(j, k, z), st_stay(j, k, z), left_alone(z, c, j.r, x)
    ensures st_up(j, k + 1, c), st_stay(j, k + 1, c)
{
    reveal(st_up); reveal(st_stay); reveal(st_old);
    nexts(j, k);
    assert forall|y: NodeId| #![trigger c.par(y)] c.has(y) && y != j.r && c.par(y) is None implies gone(j, k + 1, y) by {
        if y != x { assert(z.has(y)); assert(z.par(y) is None); }
    }
    assert forall|a: NodeId| #![trigger j.ta.s_parent(a)] j.ta.s_has(a) && !shifted(j, k + 1, a) && !gone(j, k + 1, a) implies c.par(a) == j.ta.s_parent(a) || slot_top(c, j.r, a) by {
        assert(real(z, j.r, a));
        assert(a != x);
        assert(!shifted(j, k, a) && !gone(j, k, a));
        let q = c.par(a);
    }
}
/// Text and attribute changes leave the working copy alone.
pub proof fn step_same<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh)
    requires going(j, k, z, sh), 0 <= k < j.ops.len(), is_txt(j.ops[k]) || is_upd(j.ops[k])
    ensures going(j, k + 1, z, sh)
{
    reveal(going); reveal(st_name); reveal(st_home); reveal(st_stay); reveal(st_up);
    nexts(j, k);
    assert forall|d: NodeId| #![trigger sh.contains_key(d)] sh.contains_key(d) <==> named(j, k + 1, d) by { assert(sh.contains_key(d) <==> named(j, k, d)); }
    assert forall|d: NodeId| #![trigger sh[d]] settled(j, k + 1, d) implies at_home(j, z, sh, d) by { assert(settled(j, k, d)); }
    assert forall|a: NodeId| #![trigger j.ta.s_parent(a)] j.ta.s_has(a) && !shifted(j, k + 1, a) && !gone(j, k + 1, a) implies z.par(a) == j.ta.s_parent(a) || slot_top(z, j.r, a) by {
        assert(!shifted(j, k, a) && !gone(j, k, a));
    }
}

} // verus!
}
