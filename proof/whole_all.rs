// H12: all patches of a comparison, one after the other.
pub mod whole_all {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::{DiffTree, tree_ok, in_op};
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe_spec::*;
use crate::forest::*;
use crate::forest_laws::*;
use crate::forest_mut::*;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_props::NodeData;
use crate::html_patch::*;
use crate::html_dom::{Document, is_named};
use crate::shadow_trees::*;
use crate::shadow_steps::*;
use crate::shadow_convert::{says, told, told_last, text_v, job, as_planned, prepared};
use crate::shadow::{ShM, ShadowTree, real, slot_top, slotted, lead, hung};
use crate::page_content::*;
use crate::page_insert::*;
use crate::page_diff::*;
use crate::doc_view::{page, page_f, page_node, page_ok, plain, DiffableDocument};
use crate::doc_build::{leaves_ok, tree_page, tree_f, tree_node, TreeM};
use crate::html_apply as ap;
use crate::html_apply::{DocM, empty_text};
use crate::whole::*;
use crate::whole_run::*;
use crate::whole_start::*;
use crate::whole_end::*;
use crate::whole_frame::{framed, outer, start_frame};
verus! {

// ---- the edit script, then the opaque nodes
/// Replaces the content of an opaque node that is compared itself.
pub open spec fn refills<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, p: PatchV) -> bool {
    match p {
        PatchV::OpaqueChanged { path, content } => exists|b: NodeId| #[trigger] vis(j, b) && j.tb.s_is_opaque(b) && lead(m, j.r, path.0@) == Some(sh[b]),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn planned<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>) -> bool {
    let n = j.ops.len() as int;
    &&& n <= ps.len() && told(j, n, ps.take(n), st, shs)
    &&& forall|i: int| #![trigger ps[i]] n <= i < ps.len() ==> refills(j, st[n], shs[n], ps[i]@)
}
pub open spec fn begins<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, st: Seq<ShM<'a>>, shs: Seq<Sh>, d0: DocM<'b>, s0: Slots, f0: F, c0: Cs) -> bool {
    state(j, 0, st[0], shs[0], d0, s0, f0, c0)
}
proof fn refill_one<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, s: Slots, f: F, p: PatchV, e: DocM<'b>, t: Slots, ok: bool)
    requires ready(j), going(j, j.ops.len() as int, m, sh), stands(j, m, sh, d, s, f), refills(j, m, sh, p), ap::applied(d, s, p, e, t, ok)
    ensures ok, stands(j, m, sh, e, t, f)
{
    match p {
        PatchV::OpaqueChanged { path, content } => {
            let b = choose|b: NodeId| #[trigger] vis(j, b) && j.tb.s_is_opaque(b) && lead(m, j.r, path.0@) == Some(sh[b]);
            refill_run(j, m, sh, d, s, f, path.0@, seq![], b, e, t, ok);
        }
        _ => {}
    }
}
/// The body is where it was, below what it was below, and what is compared is not above it.
#[verifier::opaque]
pub open spec fn rooted<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, sh: Sh, d: DocM<'b>, f: F, d0: DocM<'b>, x0: NodeId) -> bool {
    &&& trees(d0) && d0.has(x0) && f(j.ta.s_root()) == x0 && in_place(d, d0, x0)
    &&& forall|b: NodeId| #![trigger sh[b]] vis(j, b) ==> !outer(d0, x0, f(sh[b]))
}
pub open spec fn in_place<'b>(d: DocM<'b>, d0: DocM<'b>, x0: NodeId) -> bool {
    &&& d.has(x0) && d.par(x0) == d0.par(x0)
    &&& forall|y: NodeId| #![trigger d.par(y)] outer(d0, x0, y) ==> d.has(y) && d.par(y) == d0.par(y)
}
proof fn rooted_first<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, f: F, d0: DocM<'b>, x0: NodeId)
    requires ready(j), going(j, j.ops.len() as int, m, sh), framed(m, j.r, d, f, None, d0, x0, j.ta.s_root())
    ensures rooted(j, sh, d, f, d0, x0)
{
    reveal(rooted); reveal(framed);
    let n = j.ops.len() as int;
    assert forall|b: NodeId| #![trigger sh[b]] vis(j, b) implies !outer(d0, x0, f(sh[b])) by {
        vis_named(j, m, sh, b);
        named_live(j, n, m, sh, b);
        let u = f(sh[b]);
    }
}
proof fn refill_rooted<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, s: Slots, f: F, p: PatchV, e: DocM<'b>, t: Slots, ok: bool, d0: DocM<'b>, x0: NodeId)
    requires ready(j), going(j, j.ops.len() as int, m, sh), stands(j, m, sh, d, s, f), refills(j, m, sh, p), ap::applied(d, s, p, e, t, ok), rooted(j, sh, d, f, d0, x0)
    ensures rooted(j, sh, e, f, d0, x0)
{
    reveal(rooted);
    match p {
        PatchV::OpaqueChanged { path, content } => {
            let b = choose|b: NodeId| #[trigger] vis(j, b) && j.tb.s_is_opaque(b) && lead(m, j.r, path.0@) == Some(sh[b]);
            nav_vis(j, m, sh, d, s, f, path.0@, b);
            let x = f(sh[b]);
            assert(ap::refilled(d, e, x));
            assert(!outer(d0, x0, x));
            if d0.par(x0) is Some { over_up(d0, x0, x0); if d0.par(x0) == Some(x) { assert(d0.has(x) && d0.depth(x) < d0.depth(x0)); assert(outer(d0, x0, x)); } }
            assert(e.par(x0) == d0.par(x0));
            assert forall|y: NodeId| #![trigger e.par(y)] outer(d0, x0, y) implies e.has(y) && e.par(y) == d0.par(y) by {
                assert(d.par(y) == d0.par(y));
                over_ix(d0, y, x0);
                if d0.par(y) == Some(x) { over_up(d0, y, x0); assert(d0.has(x) && d0.depth(x) < d0.depth(y)); assert(outer(d0, x0, x)); }
            }
        }
        _ => {}
    }
}
/// After the edit script and k - n replacements.
pub proof fn all_stand<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, k: int, d0: DocM<'b>, s0: Slots, f0: F, c0: Cs, d: DocM<'b>, s: Slots, x0: NodeId) -> (f: F)
    requires ready(j), fair(j), framed(st[0], j.r, d0, f0, None, d0, x0, j.ta.s_root()), planned(j, ps, st, shs), begins(j, st, shs, d0, s0, f0, c0), j.ops.len() <= k <= ps.len(), ap::ran(d0, s0, ap::patches_v(ps).take(k), d, s), trees(d)
    ensures stands(j, st[j.ops.len() as int], shs[j.ops.len() as int], d, s, f), rooted(j, shs[j.ops.len() as int], d, f, d0, x0), going(j, j.ops.len() as int, st[j.ops.len() as int], shs[j.ops.len() as int])
    decreases k
{
    hide(state); hide(trees); hide(ap::applied); hide(refills);
    reveal(planned);
    let n = j.ops.len() as int;
    let l = ap::patches_v(ps).take(k);
    if k == n {
        assert(l =~= ap::patches_v(ps.take(n)).take(n));
        let h = all_run(j, n, ps.take(n), st, shs, n, d0, s0, f0, c0, d, s);
        stands_first(j, n, ps.take(n), st, shs, d, s, h.0, h.1);
        rooted_first(j, st[n], shs[n], d, h.0, d0, x0);
        h.0
    } else {
        let (c, u) = choose|c: DocM<'b>, u: Slots| #[trigger] ap::stage(c, u) && ap::ran(d0, s0, l.drop_last(), c, u) && ap::applied(c, u, l.last(), d, s, true);
        assert(l.drop_last() =~= ap::patches_v(ps).take(k - 1));
        let f = all_stand(j, ps, st, shs, k - 1, d0, s0, f0, c0, c, u, x0);
        assert(l.last() == ps[k - 1]@);
        refill_rooted(j, st[n], shs[n], c, u, f, ps[k - 1]@, d, s, true, d0, x0);
        refill_one(j, st[n], shs[n], c, u, f, ps[k - 1]@, d, s, true);
        f
    }
}
/// None of the patches is refused.
pub proof fn nothing_refused<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, k: int, d0: DocM<'b>, s0: Slots, f0: F, c0: Cs, d: DocM<'b>, s: Slots, e: DocM<'b>, t: Slots, x0: NodeId)
    requires ready(j), fair(j), framed(st[0], j.r, d0, f0, None, d0, x0, j.ta.s_root()), planned(j, ps, st, shs), begins(j, st, shs, d0, s0, f0, c0), 0 <= k < ps.len(), ap::ran(d0, s0, ap::patches_v(ps).take(k), d, s), trees(d),
        ap::applied(d, s, ps[k]@, e, t, false)
    ensures false
{
    hide(state); hide(trees); hide(ap::applied); hide(refills);
    reveal(planned);
    let n = j.ops.len() as int;
    if k < n {
        assert(ap::patches_v(ps).take(k) =~= ap::patches_v(ps.take(n)).take(k));
        assert(ps.take(n)[k] == ps[k]);
        none_fails(j, n, ps.take(n), st, shs, k, d0, s0, f0, c0, d, s, e, t, false);
    } else {
        let f = all_stand(j, ps, st, shs, k, d0, s0, f0, c0, d, s, x0);
        refill_one(j, st[n], shs[n], d, s, f, ps[k]@, e, t, false);
    }
}
/// None of the patches moves a node below itself.
pub proof fn nothing_loops<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, d0: DocM<'b>, s0: Slots, f0: F, c0: Cs, x0: NodeId)
    requires ready(j), fair(j), framed(st[0], j.r, d0, f0, None, d0, x0, j.ta.s_root()), planned(j, ps, st, shs), begins(j, st, shs, d0, s0, f0, c0)
    ensures ap::run_ok(d0, s0, ap::patches_v(ps))
{
    hide(state); hide(trees); hide(ap::applied); hide(ap::sound);
    reveal(planned);
    let n = j.ops.len() as int;
    let all = ap::patches_v(ps);
    assert forall|k: int, c: DocM<'b>, u: Slots| 0 <= k < all.len() && #[trigger] ap::ran(d0, s0, all.take(k), c, u) && ap::stage(c, u) implies ap::sound(c, u, all[k]) by {
        if k < n {
            assert(all.take(k) =~= ap::patches_v(ps.take(n)).take(k));
            assert(ps.take(n)[k] == ps[k]);
            let h = all_run(j, n, ps.take(n), st, shs, k, d0, s0, f0, c0, c, u);
            told_at(j, n, ps.take(n), st, shs, k);
            sound_at(j, k, st[k], shs[k], st[k + 1], shs[k + 1], c, u, all[k], h.0, h.1, d0, x0);
        } else {
            assert(refills(j, st[n], shs[n], ps[k]@));
            reveal(ap::sound);
        }
    }
}

// ---- pages
/// Elements have attributes with different names and no text; texts and comments have a text.
#[verifier::opaque]
pub open spec fn sensible(p: PageV) -> bool {
    forall|path: Seq<int>| (#[trigger] at(p, path)) is Some ==> one_each(at(p, path)->0.node.attrs) && ((at(p, path)->0.node.text is Some) == !(at(p, path)->0.node.kind is Element))
}
/// `g` tells where each compared node of the new page is in the document: it says the same, it has the same children in the same order,
/// and what else is below it are empty texts.
pub open spec fn shows<'b, 'a, 'c>(tb: &DiffableDocument<'b, 'a>, d: DocM<'c>, g: F) -> bool {
    &&& forall|b: NodeId| #![trigger g(b)] tb.s_has(b) && !in_op(tb, b) ==> d.has(g(b)) && node_says(d.data(g(b)), *tb.s_kind(b), pairs_v(tb.s_properties(b).attrs@), text_v(tb.s_text(b)))
    &&& forall|b: NodeId, c: NodeId| #![trigger g(b), g(c)] tb.s_has(b) && !in_op(tb, b) && tb.s_has(c) && !in_op(tb, c) && g(b) == g(c) ==> b == c
    &&& forall|b: NodeId| #![trigger g(b)] tb.s_has(b) && !in_op(tb, b) && !tb.s_is_opaque(b) ==> {
            let s = tb.s_children(b);
            let l = d.kids(g(b));
            &&& s.len() <= l.len()
            &&& forall|i: int| #![trigger s[i]] #![trigger l[i]] 0 <= i < s.len() ==> l[i] == g(s[i])
            &&& forall|i: int| #![trigger l[i]] s.len() <= i < l.len() ==> d.has(l[i]) && empty_text(d.data(l[i]))
        }
}
pub open spec fn at_b(sh: Sh, f: F) -> F { |b: NodeId| f(sh[b]) }
proof fn page_nodes<'b, 'a>(j: Job<'a, DiffableDocument<'b, 'a>>, p: PageV, q: PageV)
    requires ready(j), whole(j.ta.0.arena@, j.ta.s_root()), tree_page(j.ta.0.arena@, j.ta.s_root()) == p, j.tb.ok(), page(j.tb.m(), j.tb.body_id) == q, sensible(p), sensible(q), (forall|p: HtmlProps<'a>, q: HtmlProps<'a>| #[trigger] props_ok(&p, &q))
    ensures fair(j)
{
    hide(shown);
    reveal(sensible);
    reveal(fair);
    let a0 = j.ta.0.arena@;
    assert forall|a: NodeId| #[trigger] j.ta.s_has(a) implies one_each(pairs_v(j.ta.s_properties(a).attrs@)) by {
        let x = path_to(a0, tree_f(), j.ta.s_root(), a);
        tree_says(a0, a);
    }
    assert forall|b: NodeId| #[trigger] j.tb.s_has(b) implies one_each(pairs_v(j.tb.s_properties(b).attrs@)) && ((j.tb.s_text(b) is Some) == !(*j.tb.s_kind(b) is Element)) by {
        let x = path_to(j.tb.m(), page_f(), j.tb.body_id, b);
        page_says(&j.tb, b);
    }
    assert forall|b: NodeId| #[trigger] j.tb.s_has(b) && mate(j, b) is Some implies *j.ta.s_kind(mate(j, b)->0) == *j.tb.s_kind(b) && (j.ta.s_is_opaque(mate(j, b)->0) ==> j.tb.s_is_opaque(b)) by { pair_kinds(j, b); }
}
proof fn tree_says<'a>(m: TreeM<'a>, x: NodeId)
    ensures tree_page(m, x).node == tree_f()(m.data(x))
{}
proof fn page_says<'b, 'a>(tb: &DiffableDocument<'b, 'a>, x: NodeId)
    requires tb.ok(), tb.s_has(x)
    ensures *tb.s_kind(x) == page(tb.m(), x).node.kind, pairs_v(tb.s_properties(x).attrs@) == page(tb.m(), x).node.attrs, (tb.s_text(x) is Some) == (page(tb.m(), x).node.text is Some)
{ reveal(crate::doc_view::covers); assert(tb.nodes@.contains_key(x)); }
proof fn shown_all<'b, 'a, 'c>(j: Job<'a, DiffableDocument<'b, 'a>>, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, d: DocM<'c>, s: Slots, f: F)
    requires ready(j), planned(j, ps, st, shs), stands(j, st[j.ops.len() as int], shs[j.ops.len() as int], d, s, f)
    ensures shows(&j.tb, d, at_b(shs[j.ops.len() as int], f))
{
    let n = j.ops.len() as int;
    let m = st[n];
    let sh = shs[n];
    let g = at_b(sh, f);
    reveal(planned);
    reveal(stands);
    assert forall|b: NodeId| #![trigger g(b)] j.tb.s_has(b) && !in_op(&j.tb, b) && !j.tb.s_is_opaque(b) implies {
            let s = j.tb.s_children(b);
            let l = d.kids(g(b));
            &&& s.len() <= l.len()
            &&& forall|i: int| #![trigger s[i]] #![trigger l[i]] 0 <= i < s.len() ==> l[i] == g(s[i])
            &&& forall|i: int| #![trigger l[i]] s.len() <= i < l.len() ==> d.has(l[i]) && empty_text(d.data(l[i]))
        } by {
        all_home(j, n, ps.take(n), st, shs, b);
        assert(vis(j, b));
        let y = sh[b];
        assert(twin(m, d, f, sh[b]));
        let l = d.kids(g(b));
        assert forall|i: int| #![trigger l[i]] j.tb.s_children(b).len() <= i < l.len() implies d.has(l[i]) && empty_text(d.data(l[i])) by { assert(l[i] == f(m.kids(sh[b])[i])); }
        assert forall|i: int| #![trigger j.tb.s_children(b)[i]] #![trigger l[i]] 0 <= i < j.tb.s_children(b).len() implies l[i] == g(j.tb.s_children(b)[i]) by { assert(l[i] == f(m.kids(sh[b])[i])); }
    }
}
proof fn refill_named<'b, 'a>(j: Job<'a, DiffableDocument<'b, 'a>>, ta: &OpaqueAwareTree<'a>, ps: Seq<Patch<'a>>, plan: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, s: ShadowTree<'a>, rest: Seq<Patch<'a>>, i: int)
    requires ready(j), told(j, j.ops.len() as int, plan, st, shs), st.last() == s.m(), s.super_root == j.r,
        replaced(&j.tb, s, dues(ta, &j.tb, j.mt.pairs@, j.mt.pairs@.len() as int), rest.len() as int, rest), 0 <= i < rest.len(), rest.len() == dues(ta, &j.tb, j.mt.pairs@, j.mt.pairs@.len() as int).len()
    ensures refills(j, st[j.ops.len() as int], shs[j.ops.len() as int], rest[i]@)
{
    let n = j.ops.len() as int;
    let d = dues(ta, &j.tb, j.mt.pairs@, j.mt.pairs@.len() as int);
    told_last(j, n, plan, st, shs);
    assert(st.last() == st[n] && shs.last() == shs[n]);
    assert(replaces(&j.tb, s, d[i], rest[i]@)) by { reveal(replaced); }
    dues_in(ta, &j.tb, j.mt.pairs@, j.mt.pairs@.len() as int, i);
    let b = d[i].1;
    let k = choose|k: int| 0 <= k < j.mt.pairs@.len() && j.mt.pairs@[k] == d[i];
    assert(j.tb.s_has(b) && j.mt.wf()) by { reveal(ready); assert(j.mt.pairs@[k] == d[i]); }
    pair_in(&j.mt, k);
    assert(mate(j, b) == Some(d[i].0));
    assert(vis(j, b));
    assert(named(j, n, b));
    assert(shs[n].contains_key(b) && shs[n][b] == d[i].0) by { reveal(going); reveal(st_name); let x = shs[n][b]; }
}
/// The run of the patches of a comparison, from a document that shows the old page.
pub open spec fn set_up<'b, 'a, 'c>(q: PageV, new: &'b Document<'a>, ps: Seq<Patch<'a>>, d0: DocM<'c>, x0: NodeId, j: Job<'a, DiffableDocument<'b, 'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, f0: F) -> bool {
    &&& ready(j) && fair(j) && planned(j, ps, st, shs) && begins(j, st, shs, d0, ap::body_slot(x0), f0, no_c())
    &&& framed(st[0], j.r, d0, f0, None, d0, x0, j.ta.s_root())
    &&& j.tb.doc == new && j.tb.ok() && page(j.tb.m(), j.tb.body_id) == q
}
/// What is asked of the pages, and of the document the patches are applied to.
pub open spec fn pages_fit<'a, 'c>(p: PageV, q: PageV, d0: DocM<'c>, x0: NodeId) -> bool {
    &&& sensible(p) && sensible(q) && trees(d0) && d0.has(x0) && plain(d0, x0) && page(d0, x0) == p
    &&& forall|p: HtmlProps<'a>, q: HtmlProps<'a>| #[trigger] props_ok(&p, &q)
}
proof fn sets_up<'b, 'a, 'c>(p: PageV, q: PageV, new: &'b Document<'a>, ps: Seq<Patch<'a>>, d0: DocM<'c>, x0: NodeId) -> (r: (Job<'a, DiffableDocument<'b, 'a>>, Seq<ShM<'a>>, Seq<Sh>, F))
    requires compared(p, q, new, ps), pages_fit(p, q, d0, x0)
    ensures set_up(q, new, ps, d0, x0, r.0, r.1, r.2, r.3)
{
    hide(shown); hide(trees); hide(ap::applied); hide(refills); hide(tree_page); hide(page); hide(whole); hide(replaced); hide(state);
    let (ta, tb, mt, ops, s) = choose|ta: OpaqueAwareTree<'a>, tb: DiffableDocument<'b, 'a>, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, s: ShadowTree<'a>|
        #[trigger] told_of(ta, tb, mt, ops, s, ps) && two_pages(&ta, &tb, p, q) && tb.doc == new && unmarked(&ta, &tb, mt.pairs@) && ops.len() <= ps.len()
        && replaced(&tb, s, dues(&ta, &tb, mt.pairs@, mt.pairs@.len() as int), ps.len() - ops.len(), ps.skip(ops.len() as int))
        && ps.len() - ops.len() == dues(&ta, &tb, mt.pairs@, mt.pairs@.len() as int).len();
    let n = ops.len() as int;
    let plan = ps.take(n);
    let (hs, st, shs) = choose|hs: HashSet<NodeId>, st: Seq<ShM<'a>>, shs: Seq<Sh>| #[trigger] told(job(ta.0, hs, tb, mt, ops, s.super_root), n, plan, st, shs) && ready(job(ta.0, hs, tb, mt, ops, s.super_root)) && st.last() == s.m();
    let j = job(ta.0, hs, tb, mt, ops, s.super_root);
    assert(j.ta.0.arena@ == ta.0.arena@ && j.ta.s_root() == ta.0.root);
    page_nodes(j, p, q);
    let rest = ps.skip(n);
    assert(planned(j, ps, st, shs)) by {
        reveal(planned);
        assert forall|i: int| #![trigger ps[i]] n <= i < ps.len() implies refills(j, st[n], shs[n], ps[i]@) by {
            refill_named(j, &ta, ps, plan, st, shs, s, rest, i - n);
            assert(rest[i - n] == ps[i]);
        }
    }
    let f0 = start_f(j.ta.0.arena@, j.ta.s_root(), d0, x0);
    told_first(j, n, plan, st, shs);
    start_state(j, st[0], shs[0], d0, x0, ap::body_slot(x0));
    start_frame(j.ta.0.arena@, st[0], j.ta.s_root(), j.r, d0, x0);
    (j, st, shs, f0)
}
/// None of the patches of a comparison moves a node below itself.
pub proof fn never_loops<'b, 'a, 'c>(p: PageV, q: PageV, new: &'b Document<'a>, ps: Seq<Patch<'a>>, d0: DocM<'c>, x0: NodeId)
    requires compared(p, q, new, ps), pages_fit(p, q, d0, x0)
    ensures ap::run_ok(d0, ap::body_slot(x0), ap::patches_v(ps))
{
    hide(trees); hide(ap::run_ok); hide(page);
    let r = sets_up(p, q, new, ps, d0, x0);
    nothing_loops(r.0, ps, r.1, r.2, d0, ap::body_slot(x0), r.3, no_c(), x0);
}
/// The body, in place, shows the new page.
pub open spec fn turned_into<'b, 'a, 'c>(q: PageV, new: &'b Document<'a>, d0: DocM<'c>, x0: NodeId, e: DocM<'c>, tb: DiffableDocument<'b, 'a>, g: F) -> bool {
    &&& tb.doc == new && tb.ok() && page(tb.m(), tb.body_id) == q
    &&& shows(&tb, e, g) && g(tb.body_id) == x0 && in_place(e, d0, x0)
}
/// Applied to a document that shows the old page, the patches of a comparison are all accepted, and lead to a document that shows the new page.
pub proof fn reaches<'b, 'a, 'c>(p: PageV, q: PageV, new: &'b Document<'a>, ps: Seq<Patch<'a>>, d0: DocM<'c>, x0: NodeId, e: DocM<'c>, ok: bool) -> (g: (DiffableDocument<'b, 'a>, F))
    requires compared(p, q, new, ps), pages_fit(p, q, d0, x0), ap::ran_to(d0, ap::body_slot(x0), ap::patches_v(ps), e, ok), ok ==> trees(e)
    ensures ok, turned_into(q, new, d0, x0, e, g.0, g.1)
{
    hide(trees); hide(ap::applied); hide(page); hide(state); hide(begins);
    let (j, st, shs, f0) = sets_up(p, q, new, ps, d0, x0);
    let n = j.ops.len() as int;
    let s0 = ap::body_slot(x0);
    if ok {
        let t = choose|t: Slots| ap::ran(d0, s0, ap::patches_v(ps), e, t);
        assert(ap::patches_v(ps).take(ps.len() as int) =~= ap::patches_v(ps));
        assert(n <= ps.len()) by { reveal(planned); }
        let f = all_stand(j, ps, st, shs, ps.len() as int, d0, s0, f0, no_c(), e, t, x0);
        shown_all(j, ps, st, shs, e, t, f);
        let g = at_b(shs[n], f);
        reveal(rooted);
        roots(j);
        let b = j.tb.s_root();
        assert(vis(j, b)) by { reveal(ready); }
        vis_named(j, st[n], shs[n], b);
        named_live(j, n, st[n], shs[n], b);
        assert(g(b) == f(j.ta.s_root()));
        (j.tb, g)
    } else {
        let (k, c, u, t) = choose|k: int, c: DocM<'c>, u: Slots, t: Slots| 0 <= k < ps.len() && #[trigger] ap::ran(d0, s0, ap::patches_v(ps).take(k), c, u) && ap::stage(c, u) && #[trigger] ap::applied(c, u, ap::patches_v(ps)[k], e, t, false);
        nothing_refused(j, ps, st, shs, k, d0, s0, f0, no_c(), c, u, e, t, x0);
        (j.tb, f0)
    }
}
proof fn told_first<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>)
    requires told(j, n, ps, st, shs)
    ensures hung(j.ta.0.arena@, st[0], j.ta.s_root(), j.r), going(j, 0, st[0], shs[0])
{ reveal(told); assert(going(j, 0, st[0], shs[0])); }

// ---- the two functions together
/// What is asked of the two pages that are compared.
pub open spec fn pages_comparable<'a>(old: &Document<'a>, new: &Document<'a>, b: NodeId, c: NodeId) -> bool {
    &&& page_ok(old) && leaves_ok(old) && page_ok(new) && props_len_ok::<HtmlProps<'a>>()
    &&& the_body(old, b) && the_body(new, c) && comparable(page(old.m(), b), page(new.m(), c))
}
/// Calls the two functions as a client does: not part of the program, it puts their contracts together.
pub fn diff_then_apply<'a>(was: &Document<'a>, new: &Document<'a>, doc: &mut Document<'a>, Ghost(b): Ghost<NodeId>, Ghost(c): Ghost<NodeId>, Ghost(x): Ghost<NodeId>) -> (r: bool)
    requires pages_comparable(was, new, b, c), old_doc_shows(doc, x, page(was.m(), b), page(new.m(), c)),
        forall|p: HtmlProps<'a>, q: HtmlProps<'a>| #[trigger] props_ok(&p, &q),
    ensures r, // @H12
        exists|tb: DiffableDocument<'_, 'a>, g: F| #[trigger] turned_into(page(new.m(), c), new, old(doc).m(), x, final(doc).m(), tb, g), // @H12
        trees(final(doc).m()), // @H12
{
    hide(page); hide(trees); hide(plain);
    proof { body_only(was, b); body_only(new, c); }
    match diff(was, new) {
        Ok(ps) => {
            let ghost all = ps@;
            let ghost d0 = doc.m();
            let ghost p = page(was.m(), b);
            let ghost q = page(new.m(), c);
            proof {
                assert(compared(p, q, new, all));
                never_loops(p, q, new, all, d0, x);
                assert forall|d: DocM<'a>, y: NodeId| #[trigger] ap::with_body(d0, doc.root, d, y) implies d == d0 && y == x by { same_body(doc, x, d, y); }
            }
            let r = doc.apply_patches(ps);
            proof {
                let e = doc.m();
                let ok = r is Ok;
                assert(ap::ran_to(d0, ap::body_slot(x), ap::patches_v(all), e, ok)) by {
                    if all.len() == 0 { assert(ap::patches_v(all) =~= Seq::empty()); nothing_ran(d0, ap::body_slot(x)); }
                }
                let h = reaches(p, q, new, all, d0, x, e, ok);
                assert(turned_into(q, new, d0, x, e, h.0, h.1));
            }
            r.is_ok()
        }
        Err(_) => false,
    }
}
pub open spec fn old_doc_shows<'a>(doc: &Document<'a>, x: NodeId, p: PageV, q: PageV) -> bool {
    &&& doc.m().has(doc.root) && the_body(doc, x) && trees(doc.m()) && doc.m().has(x) && plain(doc.m(), x) && page(doc.m(), x) == p
    &&& sensible(p) && sensible(q)
}
proof fn nothing_ran<'a>(a: DocM<'a>, s: Slots)
    ensures ap::ran_to(a, s, Seq::empty(), a, true)
{ assert(ap::ran(a, s, Seq::empty(), a, s)); }
proof fn body_only(d: &Document<'_>, b: NodeId)
    requires the_body(d, b)
    ensures forall|c: NodeId| #[trigger] the_body(d, c) ==> c == b
{ assert forall|c: NodeId| #[trigger] the_body(d, c) implies c == b by { one_body(d, c, b); } }
proof fn same_body<'a>(doc: &Document<'a>, x: NodeId, d: DocM<'a>, y: NodeId)
    requires the_body(doc, x), ap::with_body(doc.m(), doc.root, d, y)
    ensures d == doc.m(), y == x
{
    let m = doc.m();
    let i = choose|i: int| 0 <= i < m.kids(doc.root).len() && #[trigger] m.kids(doc.root)[i] == x && is_named(m, x, "body"@) && forall|j: int| 0 <= j < i ==> !is_named(m, #[trigger] m.kids(doc.root)[j], "body"@);
    assert(is_named(m, m.kids(doc.root)[i], "body"@));
    assert(the_body(doc, y));
    one_body(doc, y, x);
}

// ---- vacuity guards: these must fail
#[verifier::rlimit(3)]
proof fn must_fail_reaches<'b, 'a, 'c>(p: PageV, q: PageV, new: &'b Document<'a>, ps: Seq<Patch<'a>>, d0: DocM<'c>, x0: NodeId, e: DocM<'c>, ok: bool)
    requires compared(p, q, new, ps), pages_fit(p, q, d0, x0), ap::ran_to(d0, ap::body_slot(x0), ap::patches_v(ps), e, ok), ok ==> trees(e), ps.len() > 3
{
    let _h = reaches(p, q, new, ps, d0, x0, e, ok);
    assert(false);
}

#[verifier::rlimit(3)]
fn must_fail_diff_then_apply<'a>(was: &Document<'a>, new: &Document<'a>, doc: &mut Document<'a>, Ghost(b): Ghost<NodeId>, Ghost(c): Ghost<NodeId>, Ghost(x): Ghost<NodeId>)
    requires pages_comparable(was, new, b, c), old_doc_shows(doc, x, page(was.m(), b), page(new.m(), c)), new.m().kids(c).len() > 3, was.m().kids(b).len() > 2,
        forall|p: HtmlProps<'a>, q: HtmlProps<'a>| #[trigger] props_ok(&p, &q),
{
    let r = diff_then_apply(was, new, doc, Ghost(b), Ghost(c), Ghost(x));
    assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_never_loops<'b, 'a, 'c>(p: PageV, q: PageV, new: &'b Document<'a>, ps: Seq<Patch<'a>>, d0: DocM<'c>, x0: NodeId)
    requires compared(p, q, new, ps), pages_fit(p, q, d0, x0), ps.len() > 3
{
    never_loops(p, q, new, ps, d0, x0);
    assert(false);
}

} // verus!
}
