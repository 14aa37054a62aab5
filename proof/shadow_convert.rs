// H03: the edit script becomes patches.
pub mod shadow_convert {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe_spec::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_mut::up;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_patch::*;
use crate::shadow::*;
use crate::shadow::real;
use crate::shadow_trees::*;
use crate::shadow_steps::*;
use crate::shadow_plan::*;
verus! {


// ---- what a patch has to say
pub open spec fn change_of(c: PropertyInFinalState<PropKey, Stem<'_>>) -> ChangeV {
    (c.key, match c.value { PropValue::Same => None, PropValue::Different(v) => Some(v@) })
}
pub open spec fn text_v(t: Option<&Stem<'_>>) -> Seq<char> { match t { Some(s) => s@, None => Seq::empty() } }
/// The content an insertion brings along: what is below `b` in the new page, without the children other operations place.
pub open spec fn kids_upto<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(tb: &T, skip: spec_fn(NodeId) -> bool, b: NodeId, i: nat) -> Seq<ContentV>
    decreases tb.s_height(b), i
{
    if i == 0 { Seq::empty() } else {
        let c = tb.s_children(b)[i - 1];
        let s = kids_upto(tb, skip, b, (i - 1) as nat);
        if skip(c) || !(tb.s_height(c) < tb.s_height(b)) { s } else {
            s.push(match *tb.s_kind(c) {
                HtmlNodeKind::Element(tag, _) => ContentV::Element { tag: tag, attrs: pairs_v(tb.s_properties(c).attrs@), children: kids_upto(tb, skip, c, tb.s_children(c).len()) },
                HtmlNodeKind::Text => ContentV::Text(text_v(tb.s_text(c))),
                HtmlNodeKind::Comment => ContentV::Comment(text_v(tb.s_text(c))),
            })
        }
    }
}
pub open spec fn either(m: Map<NodeId, NodeId>, s: Set<NodeId>) -> spec_fn(NodeId) -> bool { |c: NodeId| m.contains_key(c) || s.contains(c) }
/// Placed by an operation of its own.
pub open spec fn own<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>) -> spec_fn(NodeId) -> bool {
    |c: NodeId| mate(j, c) is Some || want_ins(&j.tb, &j.mt, c)
}
pub proof fn kids_same<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(tb: &T, f: spec_fn(NodeId) -> bool, g: spec_fn(NodeId) -> bool, b: NodeId, i: nat)
    requires tree_ok(tb), tb.s_has(b), i <= tb.s_children(b).len(), forall|c: NodeId| #[trigger] tb.s_has(c) ==> f(c) == g(c)
    ensures kids_upto(tb, f, b, i) == kids_upto(tb, g, b, i)
    decreases tb.s_height(b), i
{
    if i > 0 {
        let c = tb.s_children(b)[i - 1];
        assert(tb.s_has(c));
        kids_same(tb, f, g, b, (i - 1) as nat);
        if tb.s_height(c) < tb.s_height(b) { kids_same(tb, f, g, c, tb.s_children(c).len()); }
    }
}
pub open spec fn points<'a>(z: ShM<'a>, r: NodeId, at: Seq<u32>, p: NodeId, pos: usize) -> bool {
    at.len() > 0 && lead(z, r, at.drop_last()) == Some(p) && at.last() == pos
}
pub open spec fn body_says<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b0: NodeId, p: PatchV, at: NodeRef, slot: Option<u32>) -> bool {
    match *j.tb.s_kind(b0) {
        HtmlNodeKind::Element(tag, _) => p == (PatchV::InsertElement { at: at, tag: tag, attrs: pairs_v(j.tb.s_properties(b0).attrs@),
            children: kids_upto(&j.tb, own(j), b0, j.tb.s_children(b0).len()), detach_to_slot: slot }),
        HtmlNodeKind::Text => p == (PatchV::InsertText { at: at, text: text_v(j.tb.s_text(b0)), detach_to_slot: slot }),
        HtmlNodeKind::Comment => p == (PatchV::InsertComment { at: at, text: text_v(j.tb.s_text(b0)), detach_to_slot: slot }),
    }
}
pub open spec fn made_put<'a>(z: ShM<'a>, c: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, p: NodeId, pos: int, slot: Option<u32>) -> bool {
    created(z, c, x, c.data(x)) && slotted(c, r) && sput(c, b, r, p, pos, x, slot)
}
pub open spec fn ins_says<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b0: NodeId, z: ShM<'a>, b: ShM<'a>, sh: Sh, p: PatchV) -> bool {
    exists|c: ShM<'a>, at: NodeRef, slot: Option<u32>| #[trigger] made_put(z, c, b, j.r, sh[b0], sh[up_b(j, b0)], pos_of(j, b0), slot)
        && #[trigger] body_says(j, b0, p, at, slot) && points(z, j.r, at.0.0@, sh[up_b(j, b0)], j.tb.s_position(b0))
}
pub open spec fn lift_put<'a>(z: ShM<'a>, c: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, p: NodeId, pos: int, slot: Option<u32>) -> bool {
    slift(z, c, r, x) && slotted(c, r) && sput(c, b, r, p, pos, x, slot)
}
/// A move names the node where it is, and its new place as it is once the node has left the old one.
pub open spec fn mov_says<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b0: NodeId, x: NodeId, z: ShM<'a>, b: ShM<'a>, sh: Sh, p: PatchV) -> bool {
    match p {
        PatchV::Move { from, to, detach_to_slot } => lead(z, j.r, from.0.0@) == Some(x)
            && exists|c: ShM<'a>| #[trigger] lift_put(z, c, b, j.r, x, sh[up_b(j, b0)], pos_of(j, b0), detach_to_slot)
                && points(c, j.r, to.0.0@, sh[up_b(j, b0)], j.tb.s_position(b0)),
        _ => false,
    }
}
pub open spec fn changes_of(l: Seq<PropertyInFinalState<PropKey, Stem<'_>>>) -> Seq<ChangeV> { Seq::new(l.len(), |i: int| change_of(l[i])) }
/// The patch made for the k-th operation, between the states `z` and `b` of the working copy.
pub open spec fn says<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, b: ShM<'a>, sh: Sh, p: PatchV) -> bool {
    match j.ops[k] {
        EditOp::UpdateProperties { node_a, node_b, changes } => b == z && match p {
            PatchV::UpdateProps { path, changes: ch } => lead(z, j.r, path.0@) == Some(node_a) && ch == changes_of(changes@),
            _ => false,
        },
        EditOp::SetText { node_a, node_b, text } => b == z && match p {
            PatchV::SetText { path, text: t } => lead(z, j.r, path.0@) == Some(node_a) && t == text@,
            _ => false,
        },
        EditOp::Insert { node_b, parent_b, position, kind } => ins_says(j, node_b, z, b, sh, p),
        EditOp::Move { node_a, node_b, new_parent_b, new_position } => mov_says(j, node_b, node_a, z, b, sh, p),
        EditOp::Delete { node_a } => match p {
            PatchV::Remove { node } => lead(z, j.r, node.0.0@) == Some(node_a) && blanked(z, b, node_a),
            _ => false,
        },
    }
}
/// One patch for each of the first k operations, through the states `st` of the working copy.
#[verifier::opaque]
pub open spec fn told<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>) -> bool {
    &&& 0 <= k <= j.ops.len() && ps.len() == k && st.len() == k + 1 && shs.len() == k + 1
    &&& hung(j.ta.0.arena@, st[0], j.ta.s_root(), j.r)
    &&& forall|i: int| #![trigger st[i]] 0 <= i <= k ==> going(j, i, st[i], shs[i]) && st[i].kids(j.r).len() < u32::MAX
    &&& forall|i: int| #![trigger ps[i]] 0 <= i < k ==> says(j, i, st[i], st[i + 1], shs[i + 1], ps[i]@)
    &&& forall|i: int| #![trigger shs[i]] 0 <= i < k ==> shs[i].submap_of(shs[i + 1])
}
pub proof fn tell_none<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, ps: Seq<Patch<'a>>, m: ShM<'a>, sh: Sh)
    requires ps.len() == 0, hung(j.ta.0.arena@, m, j.ta.s_root(), j.r), going(j, 0, m, sh), m.kids(j.r).len() < u32::MAX
    ensures told(j, 0, ps, seq![m], seq![sh])
{ reveal(told); }
pub proof fn tell<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, p: Patch<'a>, b: ShM<'a>, sh: Sh)
    requires told(j, k, ps, st, shs), 0 <= k < j.ops.len(), going(j, k + 1, b, sh), says(j, k, st.last(), b, sh, p@), shs.last().submap_of(sh), b.kids(j.r).len() < u32::MAX
    ensures told(j, k + 1, ps.push(p), st.push(b), shs.push(sh))
{
    reveal(told);
    let ps2 = ps.push(p);
    let st2 = st.push(b);
    let shs2 = shs.push(sh);
    assert(st2[0] == st[0]);
    assert forall|i: int| #![trigger st2[i]] 0 <= i <= k + 1 implies going(j, i, st2[i], shs2[i]) && st2[i].kids(j.r).len() < u32::MAX by { if i <= k { assert(going(j, i, st[i], shs[i])); } }
    assert forall|i: int| #![trigger ps2[i]] 0 <= i < k + 1 implies says(j, i, st2[i], st2[i + 1], shs2[i + 1], ps2[i]@) by { if i < k { assert(says(j, i, st[i], st[i + 1], shs[i + 1], ps[i]@)); } }
    assert forall|i: int| #![trigger shs2[i]] 0 <= i < k + 1 implies shs2[i].submap_of(shs2[i + 1]) by { if i < k { assert(shs[i].submap_of(shs[i + 1])); } }
}
pub proof fn told_last<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>)
    requires told(j, k, ps, st, shs)
    ensures going(j, k, st.last(), shs.last()), ps.len() == k, st.len() == k + 1, shs.len() == k + 1, 0 <= k <= j.ops.len()
{ reveal(told); assert(going(j, k, st[k], shs[k])); }

// ---- before each operation
pub open spec fn turn<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh) -> bool {
    let op = j.ops[k];
    let p = sh[up_b(j, node_b(op))];
    &&& slotted(z, j.r) && trees(z) && z.has(j.r)
    &&& is_upd(op) || is_txt(op) ==> real(z, j.r, node_a(op)) && above(z, j.r, node_a(op))
    &&& is_ins(op) || is_mov(op) ==> j.tb.s_has(node_b(op)) && sh.contains_key(up_b(j, node_b(op))) && real(z, j.r, p) && above(z, j.r, p) && j.tb.s_parent(node_b(op)) is Some
    &&& is_ins(op) ==> ins_data(&j.tb, op) && vis(j, node_b(op)) && !settled(j, k, node_b(op)) && mate(j, node_b(op)) is None
    &&& is_mov(op) ==> mov_data(&j.tb, op) && places(j, k, z, sh, node_b(op), node_a(op)) && sh.contains_key(node_b(op)) && sh[node_b(op)] == node_a(op) && !above(z, node_a(op), p)
    &&& is_mov(op) || is_del(op) ==> real(z, j.r, node_a(op)) && above(z, j.r, node_a(op)) && z.par(node_a(op)) is Some
    &&& is_del(op) ==> want_del(&j.ta, &j.mt, node_a(op)) && j.ta.s_has(node_a(op))
}
pub proof fn takes_turn<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len()
    ensures turn(j, k, z, sh)
{
    let op = j.ops[k];
    assert(slotted(z, j.r) && st_old(j, z)) by { reveal(going); reveal(st_old); }
    if is_del(op) { del_ok(j, k, z, sh); } else {
        no_dels(j, k);
        assert(st_up(j, k, z)) by { reveal(going); }
        if is_ins(op) {
            ins_ok(j, k, z, sh);
            assert(real(z, j.r, sh[up_b(j, node_b(op))])) by { reveal(going); reveal(st_name); }
            all_up(j, k, z, sh[up_b(j, node_b(op))]);
        } else if is_mov(op) {
            mov_ok(j, k, z, sh);
            let b = node_b(op);
            let q = up_b(j, b);
            assert(real(z, j.r, sh[q])) by { reveal(going); reveal(st_name); }
            mates(j, b);
            not_self(j, b);
            vis_up(j, b);
            assert(real(z, j.r, node_a(op))) by { reveal(st_old); }
            all_up(j, k, z, sh[q]);
            all_up(j, k, z, node_a(op));
            above_up(z, j.r, node_a(op));
            lemma_anc_refl(&j.tb, q);
            lemma_anc_step(&j.tb, q, b);
            mov_clear(j, k, z, sh, q);
        } else {
            let a = node_a(op);
            assert(j.ta.s_has(a)) by { reveal(ready); }
            assert(real(z, j.r, a)) by { reveal(st_old); }
            all_up(j, k, z, a);
        }
    }
}
pub proof fn made_slotted<'a>(z: ShM<'a>, c: ShM<'a>, r: NodeId, n: NodeId, d: NodeData<HtmlTreeTypes<'a>>)
    requires slotted(z, r), created(z, c, n, d), trees(c)
    ensures slotted(c, r), c.kids(r) == z.kids(r)
{
    assert forall|k: int| #![trigger c.kids(r)[k]] 0 <= k < c.kids(r).len() implies c.kids(c.kids(r)[k]).len() <= 1 by { kid_index(z, r, k); let t = z.kids(r)[k]; assert(z.kids(t).len() <= 1); }
}
pub proof fn made_new<'a>(z: ShM<'a>, c: ShM<'a>, r: NodeId, n: NodeId, d: NodeData<HtmlTreeTypes<'a>>, y: NodeId)
    requires slotted(z, r), created(z, c, n, d), trees(z) ==> trees(c), real(z, r, y)
    ensures slotted(c, r), c.kids(r) == z.kids(r), created(z, c, n, c.data(n)), !above(c, n, y), real(c, r, y), c.has(n), c.par(n) is None, n != r, c.has(r)
{
    made_slotted(z, c, r, n, d);
    new_above(z, c, n, d, y);
    let g = c.par(y);
}
// ---- after each operation
pub proof fn done_ins<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, c: ShM<'a>, b: ShM<'a>, sh: Sh, n: NodeId, slot: Option<u32>)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len(), is_ins(j.ops[k]), turn(j, k, z, sh), slotted(c, j.r), slotted(b, j.r), n != j.r,
        created(z, c, n, c.data(n)), sput(c, b, j.r, sh[up_b(j, node_b(j.ops[k]))], pos_of(j, node_b(j.ops[k])), n, slot)
    ensures going(j, k + 1, b, sh.insert(node_b(j.ops[k]), n)), real(b, j.r, sh[up_b(j, node_b(j.ops[k]))]), above(b, j.r, sh[up_b(j, node_b(j.ops[k]))]),
        pos_of(j, node_b(j.ops[k])) < b.kids(sh[up_b(j, node_b(j.ops[k]))]).len(), up_b(j, node_b(j.ops[k])) != node_b(j.ops[k]), !sh.contains_key(node_b(j.ops[k])),
        forall|path: Seq<u32>| #[trigger] lead(b, j.r, path) == Some(sh[up_b(j, node_b(j.ops[k]))]) ==> lead(z, j.r, path) == Some(sh[up_b(j, node_b(j.ops[k]))])
{
    let b0 = node_b(j.ops[k]);
    let q = up_b(j, b0);
    let p = sh[q];
    created_loose(z, c, j.r, n, c.data(n));
    assert(real(c, j.r, p) && c.has(n) && c.par(n) is None) by { let g = c.par(p); }
    sput_nudge(c, b, j.r, p, pos_of(j, b0), n, slot);
    assert(b.has(n)) by { assert(c.has(n)); }
    not_self(j, b0);
    step_place(j, k, z, c, b, sh, b0, n);
    let t = sh.insert(b0, n);
    assert(t.contains_key(q) && t[q] == p);
    assert(real(b, j.r, p)) by { reveal(going); reveal(st_name); assert(real(b, j.r, t[q])); }
    no_dels(j, k);
    nexts(j, k);
    assert(!sh.contains_key(b0)) by { reveal(going); reveal(st_name); assert(sh.contains_key(b0) <==> named(j, k, b0)); }
    assert(st_old(j, b) && st_up(j, k + 1, b)) by { reveal(going); }
    all_up(j, k + 1, b, p);
    assert(b.kids(p).len() > pos_of(j, b0));
    assert forall|path: Seq<u32>| #[trigger] lead(b, j.r, path) == Some(p) implies lead(z, j.r, path) == Some(p) by {
        lead_back(c, b, j.r, p, pos_of(j, b0), n, slot, path);
        lead_made(z, c, j.r, n, c.data(n), path);
    }
}
pub proof fn done_mov<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, b: ShM<'a>, sh: Sh, slot: Option<u32>) -> (c: ShM<'a>)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len(), is_mov(j.ops[k]), turn(j, k, z, sh), slotted(b, j.r),
        smoved(z, b, j.r, node_a(j.ops[k]), sh[up_b(j, node_b(j.ops[k]))], pos_of(j, node_b(j.ops[k])), slot)
    ensures going(j, k + 1, b, sh), sh.insert(node_b(j.ops[k]), node_a(j.ops[k])) == sh,
        real(b, j.r, sh[up_b(j, node_b(j.ops[k]))]), above(b, j.r, sh[up_b(j, node_b(j.ops[k]))]),
        pos_of(j, node_b(j.ops[k])) < b.kids(sh[up_b(j, node_b(j.ops[k]))]).len(),
        lift_put(z, c, b, j.r, node_a(j.ops[k]), sh[up_b(j, node_b(j.ops[k]))], pos_of(j, node_b(j.ops[k])), slot),
        forall|path: Seq<u32>| #[trigger] lead(b, j.r, path) == Some(sh[up_b(j, node_b(j.ops[k]))]) ==> lead(c, j.r, path) == Some(sh[up_b(j, node_b(j.ops[k]))])
{
    let x = node_a(j.ops[k]);
    let b0 = node_b(j.ops[k]);
    let q = up_b(j, b0);
    let p = sh[q];
    let pos = pos_of(j, b0);
    let c = choose|c: ShM<'a>| #[trigger] slift(z, c, j.r, x) && slotted(c, j.r) && sput(c, b, j.r, p, pos, x, slot);
    lift_end(z, c, j.r, x, p);
    lift_loose(z, c, j.r, x);
    sput_nudge(c, b, j.r, p, pos, x, slot);
    assert(b.has(x)) by { assert(c.has(x)); }
    step_place(j, k, z, c, b, sh, b0, x);
    assert(sh.insert(b0, x) =~= sh);
    assert(real(b, j.r, p)) by { reveal(going); reveal(st_name); assert(real(b, j.r, sh[q])); }
    no_dels(j, k);
    nexts(j, k);
    assert(st_old(j, b) && st_up(j, k + 1, b)) by { reveal(going); }
    all_up(j, k + 1, b, p);
    assert forall|path: Seq<u32>| #[trigger] lead(b, j.r, path) == Some(p) implies lead(c, j.r, path) == Some(p) by {
        lead_back(c, b, j.r, p, pos, x, slot, path);
    }
    c
}
pub proof fn done_del<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, b: ShM<'a>, sh: Sh)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len(), is_del(j.ops[k]), turn(j, k, z, sh), slotted(b, j.r), blanked(z, b, node_a(j.ops[k]))
    ensures going(j, k + 1, b, sh)
{
    lift_loose(z, b, j.r, node_a(j.ops[k]));
    step_gone(j, k, z, b, sh, node_a(j.ops[k]));
}
// ---- the set of nodes with an insertion
/// What `filter_map` keeps: the new nodes of the insertions.
pub open spec fn new_nodes<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, s: Set<NodeId>) -> bool {
    forall|c: NodeId| #[trigger] s.contains(c) <==> want_ins(&j.tb, &j.mt, c)
}
pub proof fn own_skip<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>, sh: Sh, s: Set<NodeId>, b: NodeId)
    requires ready(j), 0 <= k <= j.ops.len(), going(j, k, m, sh), new_nodes(j, s), j.tb.s_has(b)
    ensures kids_upto(&j.tb, either(sh, s), b, j.tb.s_children(b).len()) == kids_upto(&j.tb, own(j), b, j.tb.s_children(b).len())
{
    let f = either(sh, s);
    let g = own(j);
    assert(tree_ok(&j.tb)) by { reveal(ready); }
    assert forall|c: NodeId| #[trigger] j.tb.s_has(c) implies f(c) == g(c) by {
        assert(sh.contains_key(c) <==> named(j, k, c)) by { reveal(going); reveal(st_name); }
        if born(j, k, c) {
            let l = choose|l: int| 0 <= l < k && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == c;
            assert(want_ins(&j.tb, &j.mt, c)) by { reveal(ready); }
        }
        assert(s.contains(c) <==> want_ins(&j.tb, &j.mt, c));
    }
    kids_same(&j.tb, f, g, b, j.tb.s_children(b).len());
}

pub open spec fn job<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: Tree<HtmlTreeTypes<'a>>, hs: HashSet<NodeId>, tb: TB, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, r: NodeId) -> Job<'a, TB> {
    Job { ta: OpaqueAwareTree(ta, hs), tb: tb, mt: mt, ops: ops, r: r }
}
pub proof fn tell_ins<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, p: Patch<'a>, c: ShM<'a>, b: ShM<'a>, n: NodeId, at: NodeRef, slot: Option<u32>)
    requires told(j, k, ps, st, shs), 0 <= k < j.ops.len(), is_ins(j.ops[k]), ins_data(&j.tb, j.ops[k]), going(j, k + 1, b, shs.last().insert(node_b(j.ops[k]), n)),
        up_b(j, node_b(j.ops[k])) != node_b(j.ops[k]),
        made_put(st.last(), c, b, j.r, n, shs.last()[up_b(j, node_b(j.ops[k]))], pos_of(j, node_b(j.ops[k])), slot),
        points(st.last(), j.r, at.0.0@, shs.last()[up_b(j, node_b(j.ops[k]))], j.tb.s_position(node_b(j.ops[k]))),
        body_says(j, node_b(j.ops[k]), p@, at, slot), !shs.last().contains_key(node_b(j.ops[k])), b.kids(j.r).len() < u32::MAX
    ensures told(j, k + 1, ps.push(p), st.push(b), shs.push(shs.last().insert(node_b(j.ops[k]), n)))
{
    let b0 = node_b(j.ops[k]);
    let sh = shs.last().insert(b0, n);
    assert(sh[b0] == n && sh[up_b(j, b0)] == shs.last()[up_b(j, b0)]);
    assert(made_put(st.last(), c, b, j.r, sh[b0], sh[up_b(j, b0)], pos_of(j, b0), slot));
    assert(ins_says(j, b0, st.last(), b, sh, p@));
    match j.ops[k] { EditOp::Insert { node_b, .. } => { assert(says(j, k, st.last(), b, sh, p@)); } _ => {} }
    tell(j, k, ps, st, shs, p, b, sh);
}
pub proof fn pairs_more(m: Matching, sh: Sh, i: int)
    requires m.wf(), 0 <= i < m.pairs@.len(), pairs_in(sh, m.pairs@.take(i))
    ensures pairs_in(sh.insert(m.pairs@[i].1, m.pairs@[i].0), m.pairs@.take(i + 1))
{
    let t = sh.insert(m.pairs@[i].1, m.pairs@[i].0);
    let a = m.pairs@.take(i);
    let b = m.pairs@.take(i + 1);
    assert forall|l: int| #![trigger b[l]] 0 <= l < b.len() implies t.contains_key(b[l].1) && t[b[l].1] == b[l].0 by {
        if l < i { assert(a[l] == b[l]); assert(m.pairs@[l].1.ix() != m.pairs@[i].1.ix()); }
    }
    assert forall|x: NodeId| #![trigger t.contains_key(x)] t.contains_key(x) implies exists|l: int| 0 <= l < b.len() && (#[trigger] b[l]).1 == x by {
        if x == m.pairs@[i].1 { assert(b[i].1 == x); } else {
            assert(sh.contains_key(x));
            let l = choose|l: int| 0 <= l < a.len() && (#[trigger] a[l]).1 == x;
            assert(b[l] == a[l]);
        }
    }
}
pub proof fn same_job<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: Tree<HtmlTreeTypes<'a>>, hs: HashSet<NodeId>, tb: TB, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, r: NodeId, q: NodeId)
    requires ready(job(ta, hs, tb, mt, ops, r))
    ensures ready(job(ta, hs, tb, mt, ops, q))
{ reveal(ready); }
pub proof fn no_pairs(ps: Seq<(NodeId, NodeId)>)
    ensures pairs_in(Map::<NodeId, NodeId>::empty(), ps.take(0))
{}
pub open spec fn with_ins<'a>(ops: Seq<EditOp<HtmlTreeTypes<'a>>>, c: NodeId) -> bool {
    exists|l: int| 0 <= l < ops.len() && is_ins(#[trigger] ops[l]) && node_b(ops[l]) == c
}
pub proof fn news<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, s: Set<NodeId>)
    requires ready(j), forall|c: NodeId| #[trigger] s.contains(c) <==> with_ins(j.ops, c)
    ensures new_nodes(j, s)
{
    reveal(ready);
    assert forall|c: NodeId| #[trigger] s.contains(c) <==> want_ins(&j.tb, &j.mt, c) by {
        if s.contains(c) { let l = choose|l: int| 0 <= l < j.ops.len() && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == c; assert(want_ins(&j.tb, &j.mt, node_b(j.ops[l]))); }
        if want_ins(&j.tb, &j.mt, c) { assert(with_ins(j.ops, c)); }
    }
}
pub proof fn start_tree<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: Tree<HtmlTreeTypes<'a>>, hs: HashSet<NodeId>, tb: TB, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, r: NodeId)
    requires ready(job(ta, hs, tb, mt, ops, r))
    ensures trees(ta.arena@), ta.arena@.has(ta.root), ta.arena@.par(ta.root) is None, tree_ok(&tb), mt.wf()
{ reveal(ready); }

pub proof fn contents_push<'a>(l: Seq<InsertContent<'a>>, x: InsertContent<'a>)
    ensures contents_v(l.push(x)) == contents_v(l).push(x@)
{ assert(contents_v(l.push(x)) =~= contents_v(l).push(x@)); }
//@fn extract_content_from_tree_b loops=1
//@spec
    requires tree_ok(tree_b), tree_b.s_has(node_b)
    ensures attrs_v(r.0@) == pairs_v(tree_b.s_properties(node_b).attrs@), // @H03
        contents_v(r.1@) == kids_upto(tree_b, either(b_to_shadow@, nodes_with_insert_ops@), node_b, tree_b.s_children(node_b).len()), // @H03
    decreases tree_b.s_height(node_b)
//@start
    proof { node_eq(); }
//@closure 0 type
  AttrPair<'a>
//@closure 0 ensures
  r.name == __c0_0.0, r.value@ == __c0_0.1@
//@loop 0 head
  invariant
    tree_ok(tree_b), tree_b.s_has(node_b), eq_ok::<NodeId>(), __s0@ == tree_b.s_children(node_b),
    attrs_v(attrs@) == pairs_v(tree_b.s_properties(node_b).attrs@), // @H03
    contents_v(children@) == kids_upto(tree_b, either(b_to_shadow@, nodes_with_insert_ops@), node_b, __i0 as nat), // @H03
//@loop 0 pre
    proof { assert(attrs_v(attrs@) =~= pairs_v(props.attrs@)); assert(contents_v(children@) =~= Seq::<ContentV>::empty()); }
//@loop 0 start
    let ghost old_kids = children@;
    proof { assert(tree_b.s_has(child_id)); assert(tree_b.s_parent(child_id) == Some(node_b)); }
//@after push 0
    proof { contents_push(old_kids, children@.last()); lemma_element_v(children@.last()); }
//@after push 1
    proof { contents_push(old_kids, children@.last()); }
//@after push 2
    proof { contents_push(old_kids, children@.last()); }
//@end

proof fn few_slots(s: &ShadowTree<'_>, r: NodeId)
    requires s.inv(), r == s.super_root
    ensures s.m().kids(r).len() < u32::MAX
{ few_kids(&s.arena, r); }
/// Two pages, a matching that respects opaque nodes, and a complete edit script.
pub open spec fn prepared<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: Tree<HtmlTreeTypes<'a>>, tb: TB, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>) -> bool {
    exists|hs: HashSet<NodeId>| #[trigger] ready(job(ta, hs, tb, mt, ops, arbitrary()))
}
pub open spec fn as_planned<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: Tree<HtmlTreeTypes<'a>>, tb: TB, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, ps: Seq<Patch<'a>>, s: ShadowTree<'a>) -> bool {
    exists|hs: HashSet<NodeId>, st: Seq<ShM<'a>>, shs: Seq<Sh>| #[trigger] told(job(ta, hs, tb, mt, ops, s.super_root), ops.len() as int, ps, st, shs) && ready(job(ta, hs, tb, mt, ops, s.super_root)) && st.last() == s.m()
}
//@fn convert_ops_with_shadow loops=3
//@attr #[verifier::spinoff_prover] pub(crate)
//@spec
    requires prepared(*tree_a, *tree_b, *matching, ops@)
    ensures r is Ok, // @H03
        as_planned(*tree_a, *tree_b, *matching, ops@, (r->Ok_0).0@, (r->Ok_0).1), (r->Ok_0).1.inv(), // @H03
//@start
    hide(sput); hide(slotted); hide(created); hide(blanked); hide(smoved); hide(hung); hide(laws); hide(lead); hide(above); hide(trees); hide(pairs_in); hide(kids_upto); hide(places);
    let ghost hs = choose|hs: HashSet<NodeId>| #[trigger] ready(job(*tree_a, hs, *tree_b, *matching, ops@, arbitrary()));
    proof { node_eq(); start_tree(*tree_a, hs, *tree_b, *matching, ops@, arbitrary()); }
//@after new 0
    let ghost j = job(*tree_a, hs, *tree_b, *matching, ops@, shadow.super_root);
    proof { same_job(*tree_a, hs, *tree_b, *matching, ops@, arbitrary(), j.r); }
//@after new 1
    proof { no_pairs(matching.pairs@); }
//@loop 0 head
  invariant eq_ok::<NodeId>(), __s0@ == matching.pairs@, pairs_in(b_to_shadow@, matching.pairs@.take(__i0 as int)), matching.wf()
//@loop 0 start
    let ghost sh = b_to_shadow@;
//@loop 0 end
    proof { pairs_more(*matching, sh, __i0 - 1); }
//@loop 0 after
    proof { assert(matching.pairs@.take(__i0 as int) =~= matching.pairs@); start_going(j, shadow.m(), b_to_shadow@); }
//@after new 2
    let ghost mut st = seq![shadow.m()];
    let ghost mut shs = seq![b_to_shadow@];
    proof {
        assert forall|c: NodeId| #[trigger] nodes_with_insert_ops@.contains(c) <==> with_ins(ops@, c) by {}
        news(j, nodes_with_insert_ops@);
        few_slots(&shadow, j.r);
        tell_none(j, result@, shadow.m(), b_to_shadow@);
    }
//@loop 1 head
  invariant eq_ok::<NodeId>(), ready(j), shadow.inv(), j == job(*tree_a, hs, *tree_b, *matching, __s1@, shadow.super_root),
    new_nodes(j, nodes_with_insert_ops@), st.last() == shadow.m(), shs.last() == b_to_shadow@,
    told(j, __i1 as int, result@, st, shs), // @H03
//@loop 1 owned
  yes
//@loop 1 start
    proof { start_tree(*tree_a, hs, *tree_b, *matching, __s1@, j.r); }
    let ghost k = __i1 - 1;
    let ghost z = shadow.m();
    let ghost sh = b_to_shadow@;
    let ghost ps = result@;
    broadcast use few_kids;
    proof { few_slots(&shadow, j.r); told_last(j, k, ps, st, shs); takes_turn(j, k, z, sh); assert(j.ops[k] == op); }
//@closure 1 type
  PropChange<'a>
//@closure 1 ensures
  r@ == change_of(__c1_0)
//@after push 0
    proof {
        assert(changes_v(prop_changes@) =~= changes_of(op->changes@));
        step_same(j, k, z, sh);
        tell(j, k, ps, st, shs, result@.last(), z, sh);
        st = st.push(z); shs = shs.push(sh);
    }
//@after new_node 0
    let ghost c = shadow.m();
    proof { made_new(z, c, j.r, new_node, new_data, shadow_parent); }
//@after insert_at_position 0
    let ghost b = shadow.m();
    proof { done_ins(j, k, z, c, b, sh, new_node, detach_to_slot); few_slots(&shadow, j.r); }
//@after push 1
    proof { own_skip(j, k + 1, b, b_to_shadow@, nodes_with_insert_ops@, node_b); tell_ins(j, k, ps, st, shs, result@.last(), c, b, new_node, at, detach_to_slot); st = st.push(b); shs = shs.push(b_to_shadow@); }
//@after push 2
    proof { tell_ins(j, k, ps, st, shs, result@.last(), c, b, new_node, at, detach_to_slot); st = st.push(b); shs = shs.push(b_to_shadow@); }
//@after push 3
    proof { tell_ins(j, k, ps, st, shs, result@.last(), c, b, new_node, at, detach_to_slot); st = st.push(b); shs = shs.push(b_to_shadow@); }
//@after push 4
    proof { few_slots(&shadow, j.r); done_del(j, k, z, shadow.m(), sh); tell(j, k, ps, st, shs, result@.last(), shadow.m(), sh); st = st.push(shadow.m()); shs = shs.push(sh); }
//@loop 2 head
  invariant false
//@after move_to_position 0
    let ghost b = shadow.m();
    let ghost c = done_mov(j, k, z, b, sh, detach_to_slot);
    proof { few_slots(&shadow, j.r); }
//@after push 6
    proof {
        assert(mov_says(j, node_b, node_a, z, b, sh, result@.last()@));
        tell(j, k, ps, st, shs, result@.last(), b, sh); st = st.push(b); shs = shs.push(sh);
    }
//@after push 7
    proof { step_same(j, k, z, sh); tell(j, k, ps, st, shs, result@.last(), z, sh); st = st.push(z); shs = shs.push(sh); }
//@loop 1 after
    proof { told_last(j, __i1 as int, result@, st, shs); }
//@end

// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
#[verifier::rlimit(3)]
fn must_fail_extract<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(b: NodeId, tree_b: &T, m: &HashMap<NodeId, NodeId>, s: &HashSet<NodeId>)
    requires tree_ok(tree_b), tree_b.s_has(b), tree_b.s_children(b).len() > 2
{
    let r = extract_content_from_tree_b(b, tree_b, m, s);
    assert(false);
}
#[verifier::rlimit(3)]
fn must_fail_convert<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(ops: Vec<EditOp<HtmlTreeTypes<'a>>>, tree_a: &Tree<HtmlTreeTypes<'a>>, tree_b: &T, matching: &Matching)
    requires prepared(*tree_a, *tree_b, *matching, ops@), ops@.len() > 3
{
    let r = convert_ops_with_shadow(ops, tree_a, tree_b, matching);
    assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_told<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>)
    requires ready(j), told(j, j.ops.len() as int, ps, st, shs), is_ins(j.ops[1]), is_mov(j.ops[2]), is_del(j.ops[3]), j.ops.len() == 4
{
    reveal(ready); reveal(told);
    assert(says(j, 1, st[1], st[2], shs[2], ps[1]@));
    assert(says(j, 2, st[2], st[3], shs[3], ps[2]@));
    assert(says(j, 3, st[3], st[4], shs[4], ps[3]@));
    assert(false);
}

} // verus!
}