// H12: after the last patch.
pub mod whole_end {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::{DiffTree, tree_ok, in_op, lemma_in_op_step, Properties};
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe_spec::*;
use crate::forest::*;
use crate::forest_laws::*;
use crate::forest_mut::*;
use crate::forest_path::*;
use crate::forest_path::place;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_patch::*;
use crate::html_dom::{NodeData, NodeKind};
use crate::shadow_steps::*;
use crate::shadow_plan::{late, late_settled, hidden_stays, vis_up, not_gone, wanted, no_dels, dels_late};
use crate::shadow_convert::{says, told, told_last, text_v};
use crate::shadow::{ShM, real, slot_top, slotted, lead, blanked};
use crate::html_apply as ap;
use crate::html_apply::{DocM, empty_text};
use crate::whole::*;
use crate::whole_run::*;
verus! {

// ---- what was removed stays away
proof fn gone_one<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, l: int)
    requires ready(j), told(j, n, ps, st, shs), 0 <= l < n, is_del(j.ops[l])
    ensures blanked(st[l], st[l + 1], node_a(j.ops[l])), st[l].has(node_a(j.ops[l])), j.ta.s_has(node_a(j.ops[l]))
{
    told_at(j, n, ps, st, shs, l);
    assert(want_del(&j.ta, &j.mt, node_a(j.ops[l]))) by { reveal(ready); }
    assert(real(st[l], j.r, node_a(j.ops[l]))) by { reveal(going); reveal(st_old); }
}
pub proof fn stays_gone<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, l: int, k: int)
    requires ready(j), told(j, n, ps, st, shs), 0 <= l < k <= n, is_del(j.ops[l])
    ensures st[k].par(node_a(j.ops[l])) is None
    decreases k
{
    let x = node_a(j.ops[l]);
    gone_one(j, n, ps, st, shs, l);
    if l < k - 1 {
        stays_gone(j, n, ps, st, shs, l, k - 1);
        told_last(j, n, ps, st, shs);
        dels_late(j, l);
        assert(is_del(j.ops[k - 1]));
        gone_one(j, n, ps, st, shs, k - 1);
        told_at(j, n, ps, st, shs, k - 1);
        assert(real(st[k - 1], j.r, x)) by { reveal(going); reveal(st_old); }
    } else {
        assert(st[l + 1].par(x) is None);
    }
}
// ---- the children of a node that is compared
/// The children of `b` come first, in order; then nodes that are not part of the page.
pub open spec fn homed<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, b: NodeId) -> bool {
    let s = j.tb.s_children(b);
    let l = m.kids(sh[b]);
    &&& sh.contains_key(b) && s.len() <= l.len()
    &&& forall|i: int| #![trigger s[i]] #![trigger l[i]] 0 <= i < s.len() ==> sh.contains_key(s[i]) && l[i] == sh[s[i]]
    &&& forall|i: int| #![trigger l[i]] s.len() <= i < l.len() ==> extra(j, m, sh, l[i])
}
pub proof fn all_late<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>)
    ensures late(j, j.ops.len() as int)
{}
pub proof fn vis_named<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, b: NodeId)
    requires ready(j), going(j, j.ops.len() as int, m, sh), vis(j, b)
    ensures sh.contains_key(b), b != j.tb.s_root() ==> j.tb.s_parent(b) is Some && at_home(j, m, sh, b) && vis(j, up_b(j, b)) && !j.tb.s_is_opaque(up_b(j, b)),
        b == j.tb.s_root() ==> slot_top(m, j.r, sh[b]), slotted(m, j.r)
{
    let n = j.ops.len() as int;
    roots(j);
    assert(slotted(m, j.r) && slot_top(m, j.r, j.ta.s_root())) by { reveal(going); reveal(st_old); }
    if b != j.tb.s_root() {
        has_up(j, b);
        all_late(j);
        late_settled(j, n, b);
        vis_up(j, b);
        up_open(j, b);
        assert(at_home(j, m, sh, b)) by { reveal(going); reveal(st_home); let x = sh[b]; }
    } else {
        assert(named(j, n, b));
        assert(sh.contains_key(b) && sh[b] == j.ta.s_root()) by { reveal(going); reveal(st_name); let x = sh[b]; }
    }
}
proof fn child_b<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId, i: int)
    requires ready(j), vis(j, b), !j.tb.s_is_opaque(b), 0 <= i < j.tb.s_children(b).len()
    ensures ({ let c = j.tb.s_children(b)[i]; vis(j, c) && j.tb.s_parent(c) == Some(b) && pos_of(j, c) == i && c != j.tb.s_root() })
{
    let c = j.tb.s_children(b)[i];
    roots(j);
    assert(j.tb.s_has(c) && j.tb.s_parent(c) == Some(b) && !in_op(&j.tb, c) && pos_of(j, c) == i) by { reveal(ready); assert(j.tb.s_children(b)[i] == c); lemma_in_op_step(&j.tb, c); }
}
proof fn pos_in<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, c: NodeId)
    requires ready(j), j.tb.s_has(c), c != j.tb.s_root()
    ensures 0 <= pos_of(j, c) < j.tb.s_children(up_b(j, c)).len()
{ has_up(j, c); reveal(ready); }
/// Whatever else is below `b`'s node is not part of the page.
proof fn only_extra<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, b: NodeId, x: NodeId)
    requires ready(j), told(j, n, ps, st, shs), n == j.ops.len(), vis(j, b), !j.tb.s_is_opaque(b), st[n].par(x) == Some(shs[n][b]), real(st[n], j.r, x), shs[n].contains_key(b),
        forall|i: int| 0 <= i < j.tb.s_children(b).len() ==> shs[n].contains_key(#[trigger] j.tb.s_children(b)[i]) && shs[n][j.tb.s_children(b)[i]] != x
    ensures extra(j, st[n], shs[n], x)
{
    let m = st[n];
    let sh = shs[n];
    told_last(j, n, ps, st, shs);
    assert(st.last() == m && shs.last() == sh);
    named_live(j, n, m, sh, b);
    let p = sh[b];
    assert(!slot_top(m, j.r, x));
    assert forall|c: NodeId| #![trigger sh[c]] sh.contains_key(c) implies sh[c] != x by {
        if sh[c] == x {
            named_live(j, n, m, sh, c);
            assert(named(j, n, c)) by { reveal(going); reveal(st_name); }
            if in_op(&j.tb, c) {
                hidden_stays(j, n, c);
                let a = mate(j, c)->0;
                mates(j, c);
                assert(m.par(a) == j.ta.s_parent(a)) by { reveal(going); reveal(st_stay); }
                let q = j.ta.s_parent(a)->0;
                assert(j.ta.s_has(q)) by { reveal(ready); }
                mates_a(j, q);
                let u = up_b(j, c);
                assert(mate(j, u) == Some(q) && j.tb.s_has(u));
                assert(named(j, n, u));
                assert(sh.contains_key(u) && sh[u] == q) by { reveal(going); reveal(st_name); let y = sh[u]; }
                assert(u == b) by { reveal(going); reveal(st_name); let y = (sh[u], sh[b]); }
                assert(false) by { reveal(ready); lemma_in_op_step(&j.tb, c); }
            } else {
                vis_named(j, m, sh, c);
                if c == j.tb.s_root() { assert(false); } else {
                    let u = up_b(j, c);
                    assert(sh[u] == p);
                    assert(u == b) by { reveal(going); reveal(st_name); let y = (sh[u], sh[b]); }
                    pos_in(j, c);
                    let i = pos_of(j, c);
                    child_b(j, b, i);
                    let d = j.tb.s_children(b)[i];
                    vis_named(j, m, sh, d);
                    assert(m.kids(p)[i] == sh[d] && m.kids(p)[i] == sh[c]);
                }
            }
        }
    }
    if j.ta.s_has(x) {
        if j.mt.s_get_b(x) is Some {
            mates_a(j, x);
            let c = j.mt.s_get_b(x)->0;
            assert(named(j, n, c));
            assert(sh.contains_key(c) && sh[c] == x) by { reveal(going); reveal(st_name); let y = sh[c]; }
        } else if want_del(&j.ta, &j.mt, x) {
            assert(exists|k: int| 0 <= k < j.ops.len() && is_del(#[trigger] j.ops[k]) && node_a(j.ops[k]) == x) by { reveal(ready); }
            let l = choose|k: int| 0 <= k < j.ops.len() && is_del(#[trigger] j.ops[k]) && node_a(j.ops[k]) == x;
            stays_gone(j, n, ps, st, shs, l, n);
        } else {
            assert(in_op(&j.ta, x));
            if gone(j, n, x) {
                let l = choose|l: int| 0 <= l < n && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == x;
                assert(want_del(&j.ta, &j.mt, x)) by { reveal(ready); }
            }
            if shifted(j, n, x) {
                let l = choose|l: int| 0 <= l < n && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == x;
                assert(want_mov(&j.ta, &j.tb, &j.mt, x, node_b(j.ops[l]))) by { reveal(ready); }
            }
            assert(m.par(x) == j.ta.s_parent(x)) by { reveal(going); reveal(st_stay); }
            assert(j.ta.s_has(p)) by { reveal(ready); }
            assert(mate(j, b) is Some) by { reveal(going); reveal(st_name); }
            assert(mate(j, b) == Some(p));
            mates(j, b);
            assert(j.ta.s_is_opaque(p)) by { reveal(ready); lemma_in_op_step(&j.ta, x); }
            pair_kinds(j, b);
        }
    }
}
pub proof fn pair_kinds<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId)
    requires ready(j), j.tb.s_has(b), mate(j, b) is Some
    ensures partners(&j.ta, &j.tb, mate(j, b)->0, b)
{
    mates(j, b);
    let a = mate(j, b)->0;
    reveal(ready);
    lemma_pair_of(&j.ta, &j.tb, &j.mt, a, b);
    let k = choose|k: int| 0 <= k < j.mt.pairs@.len() && j.mt.pairs@[k] == (a, b);
    assert(partners(&j.ta, &j.tb, j.mt.pairs@[k].0, j.mt.pairs@[k].1));
}
pub proof fn all_home<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, b: NodeId)
    requires ready(j), told(j, n, ps, st, shs), n == j.ops.len(), vis(j, b), !j.tb.s_is_opaque(b)
    ensures homed(j, st[n], shs[n], b)
{
    let m = st[n];
    let sh = shs[n];
    told_last(j, n, ps, st, shs);
    assert(st.last() == m && shs.last() == sh);
    vis_named(j, m, sh, b);
    named_live(j, n, m, sh, b);
    let s = j.tb.s_children(b);
    let l = m.kids(sh[b]);
    assert forall|i: int| #![trigger s[i]] 0 <= i < s.len() implies sh.contains_key(s[i]) && i < l.len() && l[i] == sh[s[i]] by {
        child_b(j, b, i);
        vis_named(j, m, sh, s[i]);
    }
    if s.len() > 0 { let y = s[s.len() - 1]; }
    assert(l.no_duplicates());
    assert forall|i: int| #![trigger l[i]] s.len() <= i < l.len() implies extra(j, m, sh, l[i]) by {
        kid_real(m, j.r, sh[b], i);
        kid_depth(m, sh[b], i);
        assert forall|c: int| 0 <= c < s.len() implies sh.contains_key(#[trigger] s[c]) && sh[s[c]] != l[i] by { assert(l[c] == sh[s[c]]); }
        only_extra(j, n, ps, st, shs, b, l[i]);
    }
}

// ---- what the nodes say
pub proof fn done_all<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId)
    requires ready(j), fair(j), vis(j, b)
    ensures now_attrs(j, j.ops.len() as int, b) == pairs_v(j.tb.s_properties(b).attrs@), !(*j.tb.s_kind(b) is Element) ==> now_text(j, j.ops.len() as int, b) == text_v(j.tb.s_text(b))
{
    let n = j.ops.len() as int;
    if mate(j, b) is Some {
        let a = mate(j, b)->0;
        mates(j, b);
        assert(vis_pair(&j.ta, &j.tb, &j.mt, a, b));
        let (p, q) = (j.ta.s_properties(a), j.tb.s_properties(b));
        if !upd_done(j, n, a) {
            if want_upd(&j.ta, &j.tb, &j.mt, a, b) {
                assert(exists|k: int| 0 <= k < j.ops.len() && is_upd(#[trigger] j.ops[k]) && node_a(j.ops[k]) == a && node_b(j.ops[k]) == b) by { reveal(ready); }
                assert(upd_done(j, n, a));
            }
            assert(!diff_changed(p, q));
            assert(props_ok(p, q) && one_each(pairs_v(p.attrs@)) && one_each(pairs_v(q.attrs@))) by { reveal(fair); assert(props_ok(&*p, &*q)); }
            assert(pairs_v(p.attrs@) == pairs_v(q.attrs@));
        }
        if !(*j.tb.s_kind(b) is Element) && !txt_done(j, n, a) {
            if want_txt(&j.ta, &j.tb, &j.mt, a, b) {
                assert(exists|k: int| 0 <= k < j.ops.len() && is_txt(#[trigger] j.ops[k]) && node_a(j.ops[k]) == a && node_b(j.ops[k]) == b) by { reveal(ready); }
                assert(txt_done(j, n, a));
            }
            assert(j.tb.s_text(b) is Some) by { reveal(fair); }
            assert(text_v(j.ta.s_text(a)) == text_v(j.tb.s_text(b)));
        }
    }
}

// ---- replacing what opaque nodes contain
/// What replacing the content of opaque nodes leaves in place: the nodes that are compared, what they say, and their children.
#[verifier::opaque]
pub open spec fn stands<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, s: Slots, f: F) -> bool {
    &&& forall|b: NodeId| #![trigger sh[b]] vis(j, b) ==> d.has(f(sh[b])) && node_says(d.data(f(sh[b])), *j.tb.s_kind(b), pairs_v(j.tb.s_properties(b).attrs@), text_v(j.tb.s_text(b)))
    &&& forall|b: NodeId, c: NodeId| #![trigger sh[b], sh[c]] vis(j, b) && vis(j, c) && f(sh[b]) == f(sh[c]) ==> b == c
    &&& forall|b: NodeId| #![trigger sh[b]] vis(j, b) && !j.tb.s_is_opaque(b) ==> twin(m, d, f, sh[b])
    &&& forall|b: NodeId, i: int| #![trigger m.kids(sh[b])[i]] vis(j, b) && !j.tb.s_is_opaque(b) && j.tb.s_children(b).len() <= i < m.kids(sh[b]).len() ==>
            d.has(f(m.kids(sh[b])[i])) && empty_text(d.data(f(m.kids(sh[b])[i])))
    &&& slot_twin(m, j.r, s, f)
}
pub proof fn stands_first<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, d: DocM<'b>, s: Slots, f: F, c: Cs)
    requires ready(j), fair(j), told(j, n, ps, st, shs), n == j.ops.len(), state(j, n, st[n], shs[n], d, s, f, c)
    ensures stands(j, st[n], shs[n], d, s, f), going(j, n, st[n], shs[n])
{
    let m = st[n];
    let sh = shs[n];
    told_last(j, n, ps, st, shs);
    assert(st.last() == m && shs.last() == sh);
    reveal(stands);
    assert forall|b: NodeId| #![trigger sh[b]] vis(j, b) implies d.has(f(sh[b])) && node_says(d.data(f(sh[b])), *j.tb.s_kind(b), pairs_v(j.tb.s_properties(b).attrs@), text_v(j.tb.s_text(b))) by {
        vis_named(j, m, sh, b);
        done_all(j, b);
        assert(b_says(j, n, b, d, f(sh[b]))) by { reveal(dat); }
    }
    assert forall|b: NodeId, e: NodeId| #![trigger sh[b], sh[e]] vis(j, b) && vis(j, e) && f(sh[b]) == f(sh[e]) implies b == e by {
        vis_named(j, m, sh, b);
        vis_named(j, m, sh, e);
        named_live(j, n, m, sh, b);
        named_live(j, n, m, sh, e);
        two_images(m, j.r, d, s, f, c, sh[b], sh[e]);
        assert(b == e) by { reveal(going); reveal(st_name); let y = (sh[b], sh[e]); }
    }
    assert forall|b: NodeId| #![trigger sh[b]] vis(j, b) && !j.tb.s_is_opaque(b) implies twin(m, d, f, sh[b]) by {
        vis_named(j, m, sh, b);
        named_live(j, n, m, sh, b);
        assert(!c(sh[b])) by { reveal(clear); }
        reveal(sim_but);
        let y = f(sh[b]);
    }
    assert forall|b: NodeId, i: int| #![trigger m.kids(sh[b])[i]] vis(j, b) && !j.tb.s_is_opaque(b) && j.tb.s_children(b).len() <= i < m.kids(sh[b]).len() implies
            d.has(f(m.kids(sh[b])[i])) && empty_text(d.data(f(m.kids(sh[b])[i]))) by {
        all_home(j, n, ps, st, shs, b);
        let x = m.kids(sh[b])[i];
        named_live(j, n, m, sh, b);
        assert(extra(j, m, sh, x));
        kid_depth(m, sh[b], i);
        assert(idle(m, j.r, d, f, c, x)) by { reveal(spare); }
    }
    assert(slot_twin(m, j.r, s, f)) by { reveal(sim_but); }
}
/// The way to a node that is compared leads to its counterpart.
pub proof fn nav_vis<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, s: Slots, f: F, path: Seq<u32>, b: NodeId)
    requires ready(j), going(j, j.ops.len() as int, m, sh), stands(j, m, sh, d, s, f), vis(j, b), lead(m, j.r, path) == Some(sh[b])
    ensures nav(d, s, path) == Some(f(sh[b]))
    decreases path.len()
{
    let r = j.r;
    vis_named(j, m, sh, b);
    let k = path[0] as int;
    slot_real(m, r, k);
    let t = m.kids(m.kids(r)[k])[0];
    assert(s.contains_key(path[0]) && s[path[0]] == f(t)) by { reveal(stands); assert(m.kids(r)[k] == m.kids(r)[k]); }
    let w = path.skip(1);
    if path.len() > 1 {
        let v = path.drop_last();
        assert(v.skip(1) =~= w.drop_last());
        assert(lead(m, r, v) == walk(m, t, w.drop_last()));
        let q = walk(m, t, w.drop_last())->0;
        walk_live(m, r, t, w.drop_last());
        let i = w.last() as int;
        assert(w.last() == path.last());
        kid_depth(m, q, i);
        assert(m.kids(q)[i] == sh[b]);
        assert(m.par(sh[b]) == Some(q));
        assert(b != j.tb.s_root());
        let u = up_b(j, b);
        assert(sh[u] == q);
        nav_vis(j, m, sh, d, s, f, v, u);
        assert(nav(d, s, v) == walk(d, s[path[0]], w.drop_last()));
        assert(twin(m, d, f, sh[u])) by { reveal(stands); let y = sh[u]; }
        assert(d.kids(f(q))[i] == f(m.kids(q)[i]));
    } else { assert(w.len() == 0); }
}
pub proof fn walk_live<'a>(m: ShM<'a>, r: NodeId, x: NodeId, path: Seq<u32>)
    requires slotted(m, r), live(m, r, None, x), walk(m, x, path) is Some
    ensures live(m, r, None, walk(m, x, path)->0)
    decreases path.len()
{
    if path.len() > 0 {
        walk_live(m, r, x, path.drop_last());
        kid_real(m, r, walk(m, x, path.drop_last())->0, path.last() as int);
    }
}
/// Replacing the content of an opaque node.
pub proof fn refill_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, s: Slots, f: F, path: Seq<u32>, content: Seq<char>, b: NodeId, e: DocM<'b>, t: Slots, ok: bool)
    requires ready(j), going(j, j.ops.len() as int, m, sh), stands(j, m, sh, d, s, f), vis(j, b), j.tb.s_is_opaque(b), lead(m, j.r, path) == Some(sh[b]),
        t == s, match nav(d, s, path) { Some(x) => ok && ap::refilled(d, e, x), None => !ok && e == d }
    ensures ok, stands(j, m, sh, e, t, f)
{
    nav_vis(j, m, sh, d, s, f, path, b);
    reveal(stands);
    let x = f(sh[b]);
    assert forall|c: NodeId| #![trigger sh[c]] vis(j, c) && !j.tb.s_is_opaque(c) implies twin(m, e, f, sh[c]) by {
        let y = (sh[b], sh[c]);
        assert(twin(m, d, f, sh[c]));
        assert(d.has(f(sh[c])));
        assert(e.kids(f(sh[c])) == d.kids(f(sh[c])));
    }
    assert forall|c: NodeId| #![trigger sh[c]] vis(j, c) implies e.has(f(sh[c])) && e.data(f(sh[c])) == d.data(f(sh[c])) by { assert(d.has(f(sh[c]))); }
}

// ---- vacuity guards: these must fail
#[verifier::rlimit(3)]
proof fn must_fail_all_home<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, b: NodeId)
    requires ready(j), told(j, n, ps, st, shs), n == j.ops.len(), vis(j, b), !j.tb.s_is_opaque(b)
{
    all_home(j, n, ps, st, shs, b);
    assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_stands_first<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, n: int, ps: Seq<Patch<'a>>, st: Seq<ShM<'a>>, shs: Seq<Sh>, d: DocM<'b>, s: Slots, f: F, c: Cs)
    requires ready(j), fair(j), told(j, n, ps, st, shs), n == j.ops.len(), state(j, n, st[n], shs[n], d, s, f, c)
{
    stands_first(j, n, ps, st, shs, d, s, f, c);
    reveal(stands); reveal(fair); reveal(ready); reveal(going); assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_refill_run<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, s: Slots, f: F, path: Seq<u32>, content: Seq<char>, b: NodeId, e: DocM<'b>, t: Slots, ok: bool)
    requires ready(j), going(j, j.ops.len() as int, m, sh), stands(j, m, sh, d, s, f), vis(j, b), j.tb.s_is_opaque(b), lead(m, j.r, path) == Some(sh[b]),
        t == s, match nav(d, s, path) { Some(x) => ok && ap::refilled(d, e, x), None => !ok && e == d }
{
    refill_run(j, m, sh, d, s, f, path, content, b, e, t, ok);
    reveal(stands); reveal(ready); assert(false);
}

} // verus!
}
