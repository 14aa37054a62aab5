// H01: one patch after the other.
pub mod whole_run {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::{DiffTree, TreeTypes, Properties, tree_ok, in_op, lemma_in_op_step};
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_patch::*;
use crate::html_props::*;
use crate::chawathe_spec::*;
use crate::shadow_steps::*;
use crate::shadow_plan::{late, late_settled, hidden_stays, vis_up, not_gone, wanted, no_dels};
use crate::shadow_convert::{says, ins_says, mov_says, made_put, lift_put, body_says, points, kids_upto, own, text_v, told, told_last, turn, takes_turn, changes_of};
use crate::html_dom::{NodeData, NodeKind};
use crate::shadow::{above_up, ShM, lead, slotted, real, slot_top, sput, slift, blanked, blank, hung};
use crate::html_apply as ap;
use crate::html_apply::{DocM, empty_text, deep};
use crate::whole::*;
use crate::whole_frame::{framed, still_framed, lift_frame, mov_sound};
verus! {

// ---- what stays
pub open spec fn keeps<'b>(d: DocM<'b>, e: DocM<'b>) -> bool {
    forall|y: NodeId| #![trigger e.has(y)] #![trigger e.data(y)] d.has(y) ==> e.has(y) && e.data(y) == d.data(y)
}
pub proof fn put_keeps<'b>(d: DocM<'b>, s: Slots, e: DocM<'b>, t: Slots, at: (NodeId, int), n: NodeId, slot: Option<u32>)
    requires ap::put(d, s, e, t, at, n, slot)
    ensures keeps(d, e)
{}
pub proof fn put_new_keeps<'b>(d: DocM<'b>, s: Slots, path: Seq<u32>, x: ContentV, slot: Option<u32>, e: DocM<'b>, t: Slots, ok: bool)
    requires ap::put_new(d, s, path, x, slot, e, t, ok)
    ensures keeps(d, e)
{}
pub proof fn moved_keeps<'b>(d: DocM<'b>, s: Slots, from: Seq<u32>, to: Seq<u32>, slot: Option<u32>, e: DocM<'b>, t: Slots, ok: bool)
    requires ap::moved(d, s, from, to, slot, e, t, ok)
    ensures keeps(d, e)
{
    match nav(d, s, from) {
        Some(x) => {
            let c = choose|c: DocM<'b>| #[trigger] ap::lifted(d, c, x, deep(from)) && trees(c) && match place(c, s, to) {
                Some(y) => ok && ap::put(c, s, e, t, y, x, slot),
                None => !ok && e == c && t == s,
            };
            assert(keeps(d, c));
            assert(keeps(c, e));
            assert forall|y: NodeId| #![trigger e.has(y)] #![trigger e.data(y)] d.has(y) implies e.has(y) && e.data(y) == d.data(y) by { assert(c.has(y)); }
        }
        None => {}
    }
}

/// The body stays the body, with what is around it.
pub open spec fn stays<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, z: ShM<'a>, d: DocM<'b>, f: F, b: ShM<'a>, e: DocM<'b>, g: F) -> bool {
    forall|d0: DocM<'b>, x0: NodeId| #[trigger] framed(z, j.r, d, f, None, d0, x0, j.ta.s_root()) ==> framed(b, j.r, e, g, None, d0, x0, j.ta.s_root())
}
/// The root of the old page is neither moved nor removed.
pub proof fn root_rests<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int)
    requires ready(j), 0 <= k < j.ops.len(), is_mov(j.ops[k]) || is_del(j.ops[k])
    ensures node_a(j.ops[k]) != j.ta.s_root()
{
    roots(j);
    mates(j, j.tb.s_root());
    if is_mov(j.ops[k]) { assert(want_mov(&j.ta, &j.tb, &j.mt, node_a(j.ops[k]), node_b(j.ops[k]))) by { reveal(ready); } }
    else { assert(want_del(&j.ta, &j.mt, node_a(j.ops[k]))) by { reveal(ready); } }
}
pub proof fn stays_of<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, z: ShM<'a>, d: DocM<'b>, f: F, b: ShM<'a>, e: DocM<'b>, g: F, x: Option<NodeId>)
    requires still_framed(j.r, z, d, f, b, e, g, x), x != Some(j.ta.s_root())
    ensures stays(j, z, d, f, b, e, g)
{
    let ra = j.ta.s_root();
    assert forall|d0: DocM<'b>, x0: NodeId| #[trigger] framed(z, j.r, d, f, None, d0, x0, ra) implies framed(b, j.r, e, g, None, d0, x0, ra) by {}
}
// ---- the state after k operations
/// What `laws` ask of the pages: properties are compared as H04 says, and partners are of the same kind.
#[verifier::opaque]
pub open spec fn fair<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>) -> bool {
    &&& forall|p: HtmlProps<'a>, q: HtmlProps<'a>| #[trigger] props_ok(&p, &q)
    &&& forall|a: NodeId| #[trigger] j.ta.s_has(a) ==> one_each(pairs_v(j.ta.s_properties(a).attrs@))
    &&& forall|b: NodeId| #[trigger] j.tb.s_has(b) ==> one_each(pairs_v(j.tb.s_properties(b).attrs@))
    &&& forall|b: NodeId| #[trigger] j.tb.s_has(b) ==> ((j.tb.s_text(b) is Some) == !(*j.tb.s_kind(b) is Element))
    &&& forall|b: NodeId| #[trigger] j.tb.s_has(b) && mate(j, b) is Some ==> *j.ta.s_kind(mate(j, b)->0) == *j.tb.s_kind(b)
    &&& forall|b: NodeId| #[trigger] j.tb.s_has(b) && mate(j, b) is Some && j.ta.s_is_opaque(mate(j, b)->0) ==> j.tb.s_is_opaque(b)
}
pub open spec fn upd_done<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, a: NodeId) -> bool {
    exists|l: int| 0 <= l < k && is_upd(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a
}
pub open spec fn txt_done<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, a: NodeId) -> bool {
    exists|l: int| 0 <= l < k && is_txt(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a
}
pub open spec fn now_attrs<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b: NodeId) -> Seq<AttrV> {
    if mate(j, b) is None || upd_done(j, k, mate(j, b)->0) { pairs_v(j.tb.s_properties(b).attrs@) } else { pairs_v(j.ta.s_properties(mate(j, b)->0).attrs@) }
}
pub open spec fn now_text<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b: NodeId) -> Seq<char> {
    if mate(j, b) is None || txt_done(j, k, mate(j, b)->0) { text_v(j.tb.s_text(b)) } else { text_v(j.ta.s_text(mate(j, b)->0)) }
}
pub open spec fn b_says<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b: NodeId, d: DocM<'b>, y: NodeId) -> bool {
    d.has(y) && node_says(d.data(y), *j.tb.s_kind(b), now_attrs(j, k, b), now_text(j, k, b))
}
/// Every node with a counterpart in the new page says what it should by now.
#[verifier::opaque]
pub open spec fn dat<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, sh: Sh, d: DocM<'b>, f: F) -> bool {
    forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) ==> b_says(j, k, b, d, f(sh[b]))
}
/// The nodes that are not compared any further are opaque.
#[verifier::opaque]
pub open spec fn clear<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, sh: Sh, c: Cs) -> bool {
    forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) && c(sh[b]) ==> j.tb.s_is_opaque(b)
}
/// Neither from the old page nor for a node of the new one.
pub open spec fn extra<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, z: ShM<'a>, sh: Sh, x: NodeId) -> bool {
    real(z, j.r, x) && !j.ta.s_has(x) && forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) ==> sh[b] != x
}
pub open spec fn idle<'a, 'b>(z: ShM<'a>, r: NodeId, d: DocM<'b>, f: F, c: Cs, x: NodeId) -> bool {
    (c(x) && slot_top(z, r, x)) || (z.kids(x).len() == 0 && d.has(f(x)) && empty_text(d.data(f(x))))
}
/// Such nodes are empty texts, or blanks left in a slot.
#[verifier::opaque]
pub open spec fn spare<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, z: ShM<'a>, sh: Sh, d: DocM<'b>, f: F, c: Cs) -> bool {
    forall|x: NodeId| #![trigger extra(j, z, sh, x)] extra(j, z, sh, x) ==> idle(z, j.r, d, f, c, x)
}
pub open spec fn state<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, d: DocM<'b>, s: Slots, f: F, c: Cs) -> bool {
    sim(z, j.r, d, s, f, c) && clear(j, sh, c) && dat(j, k, sh, d, f) && spare(j, z, sh, d, f, c)
}

// ---- facts about one operation
pub proof fn dones<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int)
    requires 0 <= k < j.ops.len()
    ensures
        forall|a: NodeId| #[trigger] upd_done(j, k + 1, a) <==> upd_done(j, k, a) || (is_upd(j.ops[k]) && node_a(j.ops[k]) == a),
        forall|a: NodeId| #[trigger] txt_done(j, k + 1, a) <==> txt_done(j, k, a) || (is_txt(j.ops[k]) && node_a(j.ops[k]) == a),
{
    assert forall|a: NodeId| #[trigger] upd_done(j, k + 1, a) implies upd_done(j, k, a) || (is_upd(j.ops[k]) && node_a(j.ops[k]) == a) by {
        let l = choose|l: int| 0 <= l < k + 1 && is_upd(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a;
        if l < k { assert(upd_done(j, k, a)); }
    }
    assert forall|a: NodeId| #[trigger] txt_done(j, k + 1, a) implies txt_done(j, k, a) || (is_txt(j.ops[k]) && node_a(j.ops[k]) == a) by {
        let l = choose|l: int| 0 <= l < k + 1 && is_txt(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a;
        if l < k { assert(txt_done(j, k, a)); }
    }
    let op = j.ops[k];
}
pub proof fn named_live<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: NodeId)
    requires ready(j), going(j, k, z, sh), 0 <= k <= j.ops.len(), sh.contains_key(b)
    ensures live(z, j.r, None, sh[b]), j.tb.s_has(b), mate(j, b) is Some ==> sh[b] == mate(j, b)->0, slotted(z, j.r)
{
    assert(slotted(z, j.r)) by { reveal(going); reveal(st_old); }
    assert(real(z, j.r, sh[b]) && named(j, k, b) && (mate(j, b) is Some ==> sh[b] == mate(j, b)->0) && (mate(j, b) is None ==> !j.ta.s_has(sh[b]))) by { reveal(going); reveal(st_name); }
    if z.par(sh[b]) is None {
        assert(gone(j, k, sh[b])) by { reveal(going); reveal(st_up); }
        if mate(j, b) is Some { mates(j, b); not_gone(j, k, sh[b]); }
        else {
            let l = choose|l: int| 0 <= l < k && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == sh[b];
            assert(want_del(&j.ta, &j.mt, node_a(j.ops[l]))) by { reveal(ready); }
        }
    }
}
pub proof fn extra_live<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, x: NodeId)
    requires ready(j), going(j, k, z, sh), 0 <= k <= j.ops.len(), extra(j, z, sh, x)
    ensures live(z, j.r, None, x)
{
    if z.par(x) is None {
        assert(gone(j, k, x)) by { reveal(going); reveal(st_up); }
        let l = choose|l: int| 0 <= l < k && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == x;
        assert(want_del(&j.ta, &j.mt, node_a(j.ops[l]))) by { reveal(ready); }
    }
}
pub proof fn two_images<'a, 'b>(z: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, x: NodeId, y: NodeId)
    requires sim(z, r, d, s, f, c), live(z, r, None, x), live(z, r, None, y), f(x) == f(y)
    ensures x == y
{ reveal(sim_but); let u = (f(x), f(y)); }

// ---- an update
pub proof fn upd_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs)
    requires ready(j), fair(j), 0 <= k < j.ops.len(), is_upd(j.ops[k]) || is_txt(j.ops[k]), going(j, k, z, sh), going(j, k + 1, z, shb), sh.submap_of(shb), says(j, k, z, z, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok)
    ensures ok, state(j, k + 1, z, shb, e, t, f, c), stays(j, z, d, f, z, e, f)
{
    let x = node_a(j.ops[k]);
    let b0 = node_b(j.ops[k]);
    takes_turn(j, k, z, sh);
    nexts(j, k);
    dones(j, k);
    assert(shb =~= sh) by {
        reveal(going); reveal(st_name);
        assert forall|b: NodeId| shb.contains_key(b) implies sh.contains_key(b) by { assert(named(j, k + 1, b)); }
    }
    let path = match p { PatchV::UpdateProps { path, changes } => path.0@, PatchV::SetText { path, text } => path.0@, _ => arbitrary() };
    nav_sim(z, j.r, d, s, f, c, path);
    assert(vis_pair(&j.ta, &j.tb, &j.mt, x, b0) && (is_upd(j.ops[k]) ==> upd_data(&j.ta, &j.tb, j.ops[k])) && (is_txt(j.ops[k]) ==> txt_data(&j.tb, j.ops[k]))) by { reveal(ready); }
    mates_a(j, x);
    assert(mate(j, b0) == Some(x) && j.tb.s_has(b0));
    assert(sh.contains_key(b0) && sh[b0] == x) by { reveal(going); reveal(st_name); assert(named(j, k, b0)); }
    assert(live(z, j.r, None, x));
    let y = f(x);
    let dx = d.data(y);
    let ex = e.data(y);
    let ka = *j.tb.s_kind(b0);
    assert(ap::told(d, e, y) && t == s);
    assert(node_says(dx, ka, now_attrs(j, k, b0), now_text(j, k, b0)) && d.has(y)) by { reveal(dat); assert(b_says(j, k, b0, d, f(sh[b0]))); }
    assert(ok && node_says(ex, ka, now_attrs(j, k + 1, b0), now_text(j, k + 1, b0))) by {
        reveal(fair);
        assert(j.ta.s_has(x));
        if is_upd(j.ops[k]) {
            assert(!upd_done(j, k, x)) by {
                reveal(ready);
                if upd_done(j, k, x) { let l = choose|l: int| 0 <= l < k && is_upd(#[trigger] j.ops[l]) && node_a(j.ops[l]) == x; assert(node_a(j.ops[l]) != node_a(j.ops[k])); }
            }
            let pa = *j.ta.s_properties(x);
            let pb = *j.tb.s_properties(b0);
            assert(props_ok(&pa, &pb));
            assert(ap::updated(dx, ex, changes_of(pa.s_diff(&pb))));
            upd_says(dx, ex, &pa, &pb, ka, now_text(j, k, b0));
        } else {
            assert(j.tb.s_text(b0) is Some);
            assert(!(ka is Element));
            assert(ap::worded(dx));
        }
    }
    told_step(z, j.r, d, e, s, f, c, y);
    stays_of(j, z, d, f, z, e, f, None);
    assert(dat(j, k + 1, sh, e, f)) by {
        reveal(dat);
        assert forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) implies b_says(j, k + 1, b, e, f(sh[b])) by {
            assert(b_says(j, k, b, d, f(sh[b])));
            named_live(j, k, z, sh, b);
            if b != b0 {
                assert(sh[b] != sh[b0]) by { reveal(going); reveal(st_name); }
                if f(sh[b]) == y { two_images(z, j.r, d, s, f, c, sh[b], x); }
                assert(mate(j, b) is Some ==> mate(j, b)->0 != x);
                assert(now_attrs(j, k + 1, b) == now_attrs(j, k, b) && now_text(j, k + 1, b) == now_text(j, k, b));
            } else { assert(e.has(y)); }
        }
    }
    assert(spare(j, z, sh, e, f, c)) by {
        reveal(spare);
        assert forall|w: NodeId| #![trigger extra(j, z, sh, w)] extra(j, z, sh, w) implies idle(z, j.r, e, f, c, w) by {
            let u = f(w);
            assert(extra(j, z, sh, w));
            assert(idle(z, j.r, d, f, c, w));
            extra_live(j, k, z, sh, w);
            if f(w) == y { two_images(z, j.r, d, s, f, c, w, x); }
            assert(e.has(f(w)) == d.has(f(w)));
        }
    }
}

// ---- the operations that change the shape
pub proof fn dat_next<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, shb: Sh, d: DocM<'b>, e: DocM<'b>, f: F, g: F)
    requires 0 <= k < j.ops.len(), !is_upd(j.ops[k]), !is_txt(j.ops[k]), dat(j, k, sh, d, f), keeps(d, e), sh.submap_of(shb),
        forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) ==> g(sh[b]) == f(sh[b]),
        forall|b: NodeId| #![trigger shb[b]] shb.contains_key(b) && !sh.contains_key(b) ==> b_says(j, k + 1, b, e, g(shb[b])),
    ensures dat(j, k + 1, shb, e, g)
{
    dones(j, k);
    reveal(dat);
    assert forall|b: NodeId| #![trigger shb[b]] shb.contains_key(b) implies b_says(j, k + 1, b, e, g(shb[b])) by {
        if sh.contains_key(b) {
            assert(shb[b] == sh[b]);
            assert(b_says(j, k, b, d, f(sh[b])));
            assert(now_attrs(j, k + 1, b) == now_attrs(j, k, b) && now_text(j, k + 1, b) == now_text(j, k, b));
            assert(e.has(f(sh[b])) && e.data(f(sh[b])) == d.data(f(sh[b])));
        }
    }
}
pub proof fn still_bare<'a, 'b>(z: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, x: NodeId)
    requires sim(z, r, d, s, f, c), c(x)
    ensures z.kids(x).len() == 0, real(z, r, x)
{ reveal(sim_but); }
pub proof fn image_in<'a, 'b>(z: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, x: NodeId)
    requires sim(z, r, d, s, f, c), live(z, r, None, x)
    ensures d.has(f(x))
{ reveal(sim_but); let u = f(x); }
/// The parent of a visible node is not opaque.
pub proof fn up_open<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId)
    requires ready(j), vis(j, b), j.tb.s_parent(b) is Some
    ensures !j.tb.s_is_opaque(up_b(j, b))
{ reveal(ready); lemma_in_op_step(&j.tb, b); }
/// Every child of a visible node that is not opaque is placed by an operation of its own.
pub proof fn none_within<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId, i: nat)
    requires ready(j), vis(j, b), !j.tb.s_is_opaque(b), i <= j.tb.s_children(b).len()
    ensures kids_upto(&j.tb, own(j), b, i) == Seq::<ContentV>::empty()
    decreases i
{
    if i > 0 {
        none_within(j, b, (i - 1) as nat);
        let c = j.tb.s_children(b)[i - 1];
        assert(j.tb.s_has(c) && j.tb.s_parent(c) == Some(b) && !in_op(&j.tb, c)) by { reveal(ready); assert(j.tb.s_children(b)[i - 1] == c); lemma_in_op_step(&j.tb, c); }
        assert(own(j)(c));
    }
}
pub open spec fn ins_content<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b0: NodeId) -> ContentV {
    match *j.tb.s_kind(b0) {
        HtmlNodeKind::Element(tag, _) => ContentV::Element { tag: tag, attrs: pairs_v(j.tb.s_properties(b0).attrs@), children: kids_upto(&j.tb, own(j), b0, j.tb.s_children(b0).len()) },
        HtmlNodeKind::Text => ContentV::Text(text_v(j.tb.s_text(b0))),
        HtmlNodeKind::Comment => ContentV::Comment(text_v(j.tb.s_text(b0))),
    }
}
pub proof fn content_says<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b0: NodeId, d: DocM<'b>, e: DocM<'b>, y: NodeId)
    requires ap::built(d, e, y, ins_content(j, b0)), mate(j, b0) is None
    ensures b_says(j, k, b0, e, y)
{ reveal_with_fuel(ap::built, 1); }

pub proof fn ins_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: ShM<'a>, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs) -> (h: (F, Cs))
    requires ready(j), fair(j), 0 <= k < j.ops.len(), is_ins(j.ops[k]), going(j, k, z, sh), going(j, k + 1, b, shb), sh.submap_of(shb), says(j, k, z, b, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok),
        trees(d), ok ==> trees(e), z.kids(j.r).len() < u32::MAX
    ensures ok, state(j, k + 1, b, shb, e, t, h.0, h.1), stays(j, z, d, f, b, e, h.0)
{
    let b0 = node_b(j.ops[k]);
    takes_turn(j, k, z, sh);
    nexts(j, k);
    let r = j.r;
    let n = shb[b0];
    let u = up_b(j, b0);
    let q = sh[u];
    let pos = pos_of(j, b0);
    assert(sh.contains_key(u) && sh.dom().contains(u) && shb.dom().contains(u));
    assert(shb[u] == q);
    let (m, at, slot) = choose|m: ShM<'a>, at: NodeRef, slot: Option<u32>| #[trigger] made_put(z, m, b, r, shb[b0], shb[u], pos, slot)
        && #[trigger] body_says(j, b0, p, at, slot) && points(z, r, at.0.0@, shb[u], j.tb.s_position(b0));
    assert(ins_says(j, b0, z, b, shb, p));
    let path = at.0.0@;
    let x = ins_content(j, b0);
    let hide = j.tb.s_is_opaque(b0);
    assert(ap::put_new(d, s, path, x, slot, e, t, ok));
    up_open(j, b0);
    vis_up(j, b0);
    assert(!c(q)) by { reveal(clear); assert(sh[u] == q); }
    assert(hide || below_no(x)) by { if !hide { none_within(j, b0, j.tb.s_children(b0).len()); } }
    assert(slotted(b, r)) by { reveal(going); reveal(st_old); }
    let g = ins_step(z, m, b, r, q, pos, n, slot, d, s, e, t, ok, f, c, path, x, hide);
    let c2 = if hide { also(c, n) } else { c };
    put_new_keeps(d, s, path, x, slot, e, t, ok);
    assert forall|y: NodeId| #![trigger sh[y]] sh.contains_key(y) implies z.has(sh[y]) && real(z, r, sh[y]) by { named_live(j, k, z, sh, y); }
    assert forall|y: NodeId| #![trigger shb[y]] shb.contains_key(y) implies sh.contains_key(y) && shb[y] == sh[y] || y == b0 by {
        reveal(going); reveal(st_name);
        assert(named(j, k + 1, y));
        if y != b0 { assert(named(j, k, y)); }
    }
    roots(j);
    assert(!settled(j, k, b0) && b0 != j.tb.s_root());
    assert(!born(j, k, b0));
    assert(!sh.contains_key(b0)) by { reveal(going); reveal(st_name); assert(sh.contains_key(b0) <==> named(j, k, b0)); }
    assert(shb.contains_key(b0)) by { reveal(going); reveal(st_name); assert(born(j, k + 1, b0)); assert(named(j, k + 1, b0)); }
    assert(clear(j, shb, c2)) by {
        reveal(clear);
        assert forall|y: NodeId| #![trigger shb[y]] shb.contains_key(y) && c2(shb[y]) implies j.tb.s_is_opaque(y) by {
            if y == b0 { if c(n) { still_bare(z, r, d, s, f, c, n); } } else { assert(shb[y] == sh[y] && shb[y] != n); }
        }
    }
    content_says(j, k + 1, b0, d, e, g(n));
    dat_next(j, k, z, sh, shb, d, e, f, g);
    assert(spare(j, b, shb, e, g, c2)) by {
        reveal(spare);
        assert forall|y: NodeId| #![trigger extra(j, b, shb, y)] extra(j, b, shb, y) implies idle(b, r, e, g, c2, y) by {
            extra_live(j, k + 1, b, shb, y);
            image_in(b, r, e, t, g, c2, y);
            assert(y != n) by { assert(shb[b0] == n); }
            assert(y != q) by { assert(shb[u] == q); }
            assert(m.par(q) == z.par(q) && m.has(q));
            if z.has(y) {
                assert(m.has(y));
                was_real(m, b, r, q, pos, n, slot, y);
                assert(real(z, r, y)) by { assert(m.par(y) == z.par(y)); }
                assert forall|w: NodeId| #![trigger sh[w]] sh.contains_key(w) implies sh[w] != y by { assert(shb[w] == sh[w]); }
                assert(extra(j, z, sh, y));
                assert(idle(z, r, d, f, c, y));
                assert(g(y) == f(y));
                assert(b.kids(y) == z.kids(y)) by { assert(m.kids(y) == z.kids(y)); }
                if c(y) && slot_top(z, r, y) { top_stays(z, m, b, r, q, pos, n, slot, y); }
            } else {
                assert(!m.has(y));
                let i = filler(m, b, r, q, pos, n, slot, y);
            }
        }
    }
    stays_of(j, z, d, f, b, e, g, None);
    (g, c2)
}
/// A node at the top of a slot stays there.
pub proof fn top_stays<'a>(z: ShM<'a>, m: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, y: NodeId)
    requires slotted(m, r), slotted(b, r), real(m, r, p), m.has(n), sput(m, b, r, p, pos, n, slot), 0 <= pos, y != n, n != r,
        m.has(y), z.has(y), trees(z), slot_top(z, r, y), m.par(y) == z.par(y), m.par(z.par(y)->0) == z.par(z.par(y)->0), m.has(z.par(y)->0), z.par(y)->0 != n
    ensures slot_top(b, r, y)
{
    let q = z.par(y)->0;
    if pos < m.kids(p).len() { assert(m.par(m.kids(p)[pos]) == Some(p)); }
    assert(b.par(q) == m.par(q));
    assert(b.par(y) == m.par(y));
}
pub proof fn mov_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: ShM<'a>, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs) -> (g: F)
    requires ready(j), fair(j), 0 <= k < j.ops.len(), is_mov(j.ops[k]), going(j, k, z, sh), going(j, k + 1, b, shb), sh.submap_of(shb), says(j, k, z, b, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok),
        trees(d), ok ==> trees(e), z.kids(j.r).len() < u32::MAX
    ensures ok, state(j, k + 1, b, shb, e, t, g, c), stays(j, z, d, f, b, e, g)
{
    let b0 = node_b(j.ops[k]);
    let x = node_a(j.ops[k]);
    takes_turn(j, k, z, sh);
    nexts(j, k);
    let r = j.r;
    let u = up_b(j, b0);
    let q = sh[u];
    let pos = pos_of(j, b0);
    assert(sh.contains_key(u) && sh.dom().contains(u) && shb.dom().contains(u));
    assert(shb[u] == q);
    assert(mov_says(j, b0, x, z, b, shb, p));
    let (from, to, slot) = match p { PatchV::Move { from, to, detach_to_slot } => (from.0.0@, to.0.0@, detach_to_slot), _ => arbitrary() };
    let m = choose|m: ShM<'a>| #[trigger] lift_put(z, m, b, r, x, shb[u], pos, slot) && points(m, r, to, shb[u], j.tb.s_position(b0));
    let vb = vis_of_mov(j, k);
    up_open(j, b0);
    vis_up(j, b0);
    assert(!c(q)) by { reveal(clear); assert(sh[u] == q); }
    assert(q != x) by { above_self(z, x); }
    assert(slotted(b, r)) by { reveal(going); reveal(st_old); }
    let g = mov_step(z, m, b, r, q, pos, x, slot, d, s, e, t, ok, f, c, from, to);
    moved_keeps(d, s, from, to, slot, e, t, ok);
    assert(shb =~= sh) by {
        reveal(going); reveal(st_name);
        assert forall|y: NodeId| shb.contains_key(y) implies sh.contains_key(y) by { assert(named(j, k + 1, y)); }
    }
    assert forall|y: NodeId| #![trigger sh[y]] sh.contains_key(y) implies z.has(sh[y]) && real(z, r, sh[y]) by { named_live(j, k, z, sh, y); }
    dat_next(j, k, z, sh, shb, d, e, f, g);
    lift_real(z, m, r, x, x);
    lift_real(z, m, r, x, q);
    assert(x != r);
    assert(j.ta.s_has(x)) by { mates(j, b0); }
    assert(spare(j, b, shb, e, g, c)) by {
        reveal(spare);
        assert forall|y: NodeId| #![trigger extra(j, b, shb, y)] extra(j, b, shb, y) implies idle(b, r, e, g, c, y) by {
            extra_live(j, k + 1, b, shb, y);
            image_in(b, r, e, t, g, c, y);
            assert(y != x);
            assert(y != q) by { assert(shb[u] == q); }
            if z.has(y) {
                lift_real(z, m, r, x, y);
                was_real(m, b, r, q, pos, x, slot, y);
                assert(extra(j, z, sh, y));
                assert(idle(z, r, d, f, c, y));
                assert(g(y) == f(y));
                if z.par(x) == Some(y) { assert(z.kids(y).contains(x)); if c(y) { still_bare(z, r, d, s, f, c, y); } }
                assert(m.kids(y) == z.kids(y));
                assert(b.kids(y) == m.kids(y));
                if c(y) && slot_top(z, r, y) {
                    let w = z.par(y)->0;
                    assert(z.has(w) && w != x);
                    lift_real(z, m, r, x, w);
                    top_stays(z, m, b, r, q, pos, x, slot, y);
                }
            } else if m.has(y) {
                left(z, m, r, x, y);
                assert(b.kids(y) == m.kids(y));
            } else {
                let i = filler(m, b, r, q, pos, x, slot, y);
            }
        }
    }
    root_rests(j, k);
    stays_of(j, z, d, f, b, e, g, Some(x));
    g
}
proof fn vis_of_mov<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int) -> (u: bool)
    requires ready(j), 0 <= k < j.ops.len(), is_mov(j.ops[k]), j.tb.s_has(node_b(j.ops[k]))
    ensures vis(j, node_b(j.ops[k])), mate(j, node_b(j.ops[k])) == Some(node_a(j.ops[k]))
{
    reveal(ready);
    assert(want_mov(&j.ta, &j.tb, &j.mt, node_a(j.ops[k]), node_b(j.ops[k])));
    mates_a(j, node_a(j.ops[k]));
    true
}
pub proof fn del_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: ShM<'a>, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs) -> (h: (F, Cs))
    requires ready(j), fair(j), 0 <= k < j.ops.len(), is_del(j.ops[k]), going(j, k, z, sh), going(j, k + 1, b, shb), sh.submap_of(shb), says(j, k, z, b, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok),
        trees(d), ok ==> trees(e)
    ensures ok, state(j, k + 1, b, shb, e, t, h.0, h.1), stays(j, z, d, f, b, e, h.0)
{
    let x = node_a(j.ops[k]);
    takes_turn(j, k, z, sh);
    nexts(j, k);
    let r = j.r;
    let path = match p { PatchV::Remove { node } => node.0.0@, _ => arbitrary() };
    nav_sim(z, r, d, s, f, c, path);
    assert(ap::lifted(d, e, f(x), true) && ok && t == s);
    assert(slotted(b, r)) by { reveal(going); reveal(st_old); }
    assert(shb =~= sh) by {
        reveal(going); reveal(st_name);
        assert forall|y: NodeId| shb.contains_key(y) implies sh.contains_key(y) by { assert(named(j, k + 1, y)); }
    }
    assert forall|y: NodeId| #![trigger sh[y]] sh.contains_key(y) implies z.has(sh[y]) && real(z, r, sh[y]) by { named_live(j, k, z, sh, y); }
    assert(keeps(d, e));
    let q = z.par(x)->0;
    assert(z.has(q) && z.kids(q).contains(x));
    let h = b.kids(q)[z.kids(q).index_of(x)];
    up_up(z, r, x);
    let top = slot_top(z, r, x);
    let c2 = if top { also(c, h) } else { c };
    let g = if top { park_step(z, b, r, x, d, s, e, f, c) } else {
        let g = lift_step(z, b, r, x, d, s, e, f, c, true);
        drop_n(b, r, e, s, g, c, x);
        assert forall|d0: DocM<'b>, x0: NodeId, ra: NodeId| #[trigger] framed(z, r, d, f, None, d0, x0, ra) && x != ra implies framed(b, r, e, g, None, d0, x0, ra) by {
            lift_frame(z, b, r, x, d, s, e, f, c, true, d0, x0, ra);
            reveal(framed);
            assert forall|y: NodeId| live(b, r, None, y) implies live(b, r, Some(x), y) && y != x by {}
            assert forall|y: NodeId| #![trigger g(y)] live(b, r, None, y) implies !crate::whole_frame::outer(d0, x0, g(y)) && (slot_top(b, r, y) && y != ra ==> e.par(g(y)) is None) by { assert(live(b, r, Some(x), y)); }
        }
        g
    };
    assert(top ==> z.kids(q).index_of(x) == 0 && g == with(f, h, f(x)));
    assert(sim(b, r, e, t, g, c2));
    assert forall|y: NodeId| #![trigger g(y)] z.has(y) implies g(y) == f(y) by {}
    assert(clear(j, shb, c2)) by { reveal(clear); assert forall|y: NodeId| #![trigger shb[y]] shb.contains_key(y) && c2(shb[y]) implies j.tb.s_is_opaque(y) by { assert(z.has(sh[y])); } }
    dat_next(j, k, z, sh, shb, d, e, f, g);
    assert(spare(j, b, shb, e, g, c2)) by {
        reveal(spare);
        assert forall|y: NodeId| #![trigger extra(j, b, shb, y)] extra(j, b, shb, y) implies idle(b, r, e, g, c2, y) by {
            extra_live(j, k + 1, b, shb, y);
            image_in(b, r, e, t, g, c2, y);
            assert(y != x);
            if z.has(y) {
                assert(b.par(y) == z.par(y));
                assert(extra(j, z, sh, y));
                assert(idle(z, r, d, f, c, y));
                if z.par(x) == Some(y) { if c(y) { still_bare(z, r, d, s, f, c, y); } }
                assert(b.kids(y) == z.kids(y));
                if c(y) && slot_top(z, r, y) { let w = z.par(y)->0; assert(z.has(w) && w != x); assert(b.par(w) == z.par(w)); }
            } else {
                assert(y == h);
                assert(b.par(h) == Some(q) && q != x);
                assert(b.par(q) == z.par(q));
                if !top { assert(extends(z, b, r, e, f, g)); assert(real(b, r, y)); let v = g(y); }
            }
        }
    }
    root_rests(j, k);
    stays_of(j, z, d, f, b, e, g, Some(x));
    (g, c2)
}

// ---- one operation after the other
pub proof fn one_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: ShM<'a>, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs) -> (h: (F, Cs))
    requires ready(j), fair(j), 0 <= k < j.ops.len(), going(j, k, z, sh), going(j, k + 1, b, shb), sh.submap_of(shb), says(j, k, z, b, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok),
        trees(d), ok ==> trees(e), z.kids(j.r).len() < u32::MAX
    ensures ok, state(j, k + 1, b, shb, e, t, h.0, h.1), stays(j, z, d, f, b, e, h.0)
{
    hide(ap::applied); hide(state); hide(trees); hide(says);
    match j.ops[k] {
        EditOp::UpdateProperties { .. } => { assert(b == z) by { reveal(says); } upd_run(j, k, z, sh, shb, d, s, p, e, t, ok, f, c); (f, c) }
        EditOp::SetText { .. } => { assert(b == z) by { reveal(says); } upd_run(j, k, z, sh, shb, d, s, p, e, t, ok, f, c); (f, c) }
        EditOp::Insert { .. } => ins_run(j, k, z, sh, b, shb, d, s, p, e, t, ok, f, c),
        EditOp::Move { .. } => (mov_run(j, k, z, sh, b, shb, d, s, p, e, t, ok, f, c), c),
        EditOp::Delete { .. } => del_run(j, k, z, sh, b, shb, d, s, p, e, t, ok, f, c),
    }
}
pub proof fn told_at<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, k: int)
    requires told(j, n, ps, st, shs), 0 <= k < n
    ensures going(j, k, st[k], shs[k]), going(j, k + 1, st[k + 1], shs[k + 1]), says(j, k, st[k], st[k + 1], shs[k + 1], ps[k]@), shs[k].submap_of(shs[k + 1]), k < j.ops.len(),
        ps.len() == n, st.len() == n + 1, st[k].kids(j.r).len() < u32::MAX
{ reveal(told); assert(going(j, k, st[k], shs[k])); assert(going(j, k + 1, st[k + 1], shs[k + 1])); assert(says(j, k, st[k], st[k + 1], shs[k + 1], ps[k]@)); assert(shs[k].submap_of(shs[k + 1])); }
/// After each patch of the edit script, the document is in step with the working copy.
pub proof fn all_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, k: int, d0: DocM<'b>, s0: Slots, f0: F, c0: Cs, d: DocM<'b>, s: Slots) -> (h: (F, Cs))
    requires ready(j), fair(j), told(j, n, ps, st, shs), 0 <= k <= n, state(j, 0, st[0], shs[0], d0, s0, f0, c0), ap::ran(d0, s0, ap::patches_v(ps).take(k), d, s), trees(d)
    ensures state(j, k, st[k], shs[k], d, s, h.0, h.1), stays(j, st[0], d0, f0, st[k], d, h.0)
    decreases k
{
    hide(state); hide(trees); hide(ap::applied); hide(says); hide(told);
    let l = ap::patches_v(ps).take(k);
    told_last(j, n, ps, st, shs);
    if k == 0 { (f0, c0) } else {
        let (c, u) = choose|c: DocM<'b>, u: Slots| #[trigger] ap::stage(c, u) && ap::ran(d0, s0, l.drop_last(), c, u) && ap::applied(c, u, l.last(), d, s, true);
        assert(l.drop_last() =~= ap::patches_v(ps).take(k - 1));
        let h = all_run(j, n, ps, st, shs, k - 1, d0, s0, f0, c0, c, u);
        told_at(j, n, ps, st, shs, k - 1);
        let i = one_run(j, k - 1, st[k - 1], shs[k - 1], st[k], shs[k], c, u, ps[k - 1]@, d, s, true, h.0, h.1);
        let ra = j.ta.s_root();
        assert forall|z0: DocM<'b>, x0: NodeId| #[trigger] framed(st[0], j.r, d0, f0, None, z0, x0, ra) implies framed(st[k], j.r, d, i.0, None, z0, x0, ra) by {
            assert(framed(st[k - 1], j.r, c, h.0, None, z0, x0, ra));
        }
        i
    }
}
/// None of the patches of the edit script is refused.
pub proof fn none_fails<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, k: int, d0: DocM<'b>, s0: Slots, f0: F, c0: Cs, d: DocM<'b>, s: Slots, e: DocM<'b>, t: Slots, ok: bool)
    requires ready(j), fair(j), told(j, n, ps, st, shs), 0 <= k < n, state(j, 0, st[0], shs[0], d0, s0, f0, c0), ap::ran(d0, s0, ap::patches_v(ps).take(k), d, s), trees(d),
        ap::applied(d, s, ps[k]@, e, t, ok), ok ==> trees(e)
    ensures ok
{
    hide(state); hide(ap::applied); hide(says);
    let h = all_run(j, n, ps, st, shs, k, d0, s0, f0, c0, d, s);
    told_at(j, n, ps, st, shs, k);
    let g = one_run(j, k, st[k], shs[k], st[k + 1], shs[k + 1], d, s, ps[k]@, e, t, ok, h.0, h.1);
}

/// A patch of the edit script never moves a node below itself.
pub proof fn sound_at<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: ShM<'a>, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, f: F, c: Cs, d0: DocM<'b>, x0: NodeId)
    requires ready(j), 0 <= k < j.ops.len(), going(j, k, z, sh), going(j, k + 1, b, shb), sh.submap_of(shb), says(j, k, z, b, shb, p), state(j, k, z, sh, d, s, f, c), framed(z, j.r, d, f, None, d0, x0, j.ta.s_root()),
        trees(d)
    ensures ap::sound(d, s, p)
{
    if p is Move {
        let b0 = node_b(j.ops[k]);
        let x = node_a(j.ops[k]);
        takes_turn(j, k, z, sh);
        nexts(j, k);
        let r = j.r;
        let u = up_b(j, b0);
        let pos = pos_of(j, b0);
        assert(is_mov(j.ops[k]));
        assert(sh.contains_key(u) && sh.dom().contains(u) && shb.dom().contains(u));
        assert(mov_says(j, b0, x, z, b, shb, p));
        let (from, to, slot) = match p { PatchV::Move { from, to, detach_to_slot } => (from.0.0@, to.0.0@, detach_to_slot), _ => arbitrary() };
        root_rests(j, k);
        let m = choose|m: ShM<'a>| #[trigger] lift_put(z, m, b, r, x, shb[u], pos, slot) && points(m, r, to, shb[u], j.tb.s_position(b0));
        nav_sim(z, r, d, s, f, c, from);
        assert forall|w: DocM<'b>| #[trigger] ap::lifted(d, w, f(x), deep(from)) && trees(w) implies match place(w, s, to) { Some(y) => !above(w, f(x), y.0), None => true } by {
            mov_sound(z, m, r, shb[u], x, d, s, f, c, from, to, d0, x0, j.ta.s_root(), w);
        }
    }
}
// ---- vacuity guards: these must fail
#[verifier::rlimit(3)]
proof fn must_fail_upd_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs)
    requires ready(j), fair(j), 0 <= k < j.ops.len(), is_upd(j.ops[k]) || is_txt(j.ops[k]), going(j, k, z, sh), going(j, k + 1, z, shb), sh.submap_of(shb), says(j, k, z, z, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok), is_upd(j.ops[k])
{
    upd_run(j, k, z, sh, shb, d, s, p, e, t, ok, f, c);
    reveal(fair); reveal(dat); reveal(clear); reveal(spare); reveal(sim_but); reveal(ready); reveal(going); assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_ins_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: ShM<'a>, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs)
    requires ready(j), fair(j), 0 <= k < j.ops.len(), is_ins(j.ops[k]), going(j, k, z, sh), going(j, k + 1, b, shb), sh.submap_of(shb), says(j, k, z, b, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok),
        trees(d), ok ==> trees(e), z.kids(j.r).len() < u32::MAX
{
    let _h = ins_run(j, k, z, sh, b, shb, d, s, p, e, t, ok, f, c);
    reveal(fair); reveal(dat); reveal(clear); reveal(spare); reveal(sim_but); reveal(ready); reveal(going); assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_mov_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: ShM<'a>, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs)
    requires ready(j), fair(j), 0 <= k < j.ops.len(), is_mov(j.ops[k]), going(j, k, z, sh), going(j, k + 1, b, shb), sh.submap_of(shb), says(j, k, z, b, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok),
        trees(d), ok ==> trees(e), z.kids(j.r).len() < u32::MAX
{
    let _h = mov_run(j, k, z, sh, b, shb, d, s, p, e, t, ok, f, c);
    reveal(fair); reveal(dat); reveal(clear); reveal(spare); reveal(sim_but); reveal(ready); reveal(going); assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_del_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, b: ShM<'a>, shb: Sh, d: DocM<'b>, s: Slots, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs)
    requires ready(j), fair(j), 0 <= k < j.ops.len(), is_del(j.ops[k]), going(j, k, z, sh), going(j, k + 1, b, shb), sh.submap_of(shb), says(j, k, z, b, shb, p), state(j, k, z, sh, d, s, f, c), ap::applied(d, s, p, e, t, ok),
        trees(d), ok ==> trees(e)
{
    let _h = del_run(j, k, z, sh, b, shb, d, s, p, e, t, ok, f, c);
    reveal(fair); reveal(dat); reveal(clear); reveal(spare); reveal(sim_but); reveal(ready); reveal(going); assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_all_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, k: int, d0: DocM<'b>, s0: Slots, f0: F, c0: Cs, d: DocM<'b>, s: Slots)
    requires ready(j), fair(j), told(j, n, ps, st, shs), 0 <= k <= n, state(j, 0, st[0], shs[0], d0, s0, f0, c0), ap::ran(d0, s0, ap::patches_v(ps).take(k), d, s), trees(d), k > 3
{
    let _h = all_run(j, n, ps, st, shs, k, d0, s0, f0, c0, d, s);
    assert(false);
}

} // verus!
}
