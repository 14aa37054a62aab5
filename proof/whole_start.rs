// H12: before the first patch.
pub mod whole_start {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::{DiffTree, tree_ok};
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe_spec::*;
use crate::forest::*;
use crate::forest_laws::*;
use crate::forest_mut::*;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_patch::*;
use crate::html_dom::{NodeData, NodeKind};
use crate::page_content::*;
use crate::shadow_trees::*;
use crate::shadow_steps::*;
use crate::shadow_convert::{told, told_last, text_v};
use crate::shadow::{ShM, real, slot_top, slotted, hung};
use crate::doc_view::{page, page_f, page_node, plain};
use crate::doc_build::{tree_page, tree_f, tree_node, TreeM};
use crate::html_apply as ap;
use crate::html_apply::DocM;
use crate::whole::*;
use crate::whole_run::*;
verus! {

/// The node of the document at the place where `x` is in the tree.
pub open spec fn seen<'a, 'b>(a: TreeM<'a>, ra: NodeId, d: DocM<'b>, b: NodeId, x: NodeId) -> NodeId
    decreases a.depth(x)
{
    match a.par(x) {
        Some(p) => if x != ra && a.depth(p) < a.depth(x) { d.kids(seen(a, ra, d, b, p))[a.kids(p).index_of(x)] } else { b },
        None => b,
    }
}
pub open spec fn same_page<'a, 'b>(a: TreeM<'a>, ra: NodeId, d: DocM<'b>, b: NodeId) -> bool {
    whole(a, ra) && trees(d) && d.has(b) && page(d, b) == tree_page(a, ra)
}
proof fn kids_page<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, x: NodeId)
    requires trees(m), m.has(x)
    ensures shown(m, f, x).node == f(m.data(x)), shown(m, f, x).kids.len() == m.kids(x).len(), forall|i: int| 0 <= i < m.kids(x).len() ==> shown(m, f, x).kids[i] == shown(m, f, #[trigger] m.kids(x)[i])
{ showns_are(m, f, x, m.kids(x).len()); }
pub proof fn seen_in<'a, 'b>(a: TreeM<'a>, ra: NodeId, d: DocM<'b>, b: NodeId, x: NodeId)
    requires same_page(a, ra, d, b), a.has(x)
    ensures ({ let y = seen(a, ra, d, b, x);
        &&& d.has(y) && page(d, y) == tree_page(a, x) && over(d, b, y) && d.depth(y) + a.depth(ra) == d.depth(b) + a.depth(x)
        &&& d.kids(y).len() == a.kids(x).len()
        &&& x != ra ==> a.par(x) is Some && a.has(a.par(x)->0) && d.par(y) == Some(seen(a, ra, d, b, a.par(x)->0)) })
    decreases a.depth(x)
{
    hide(shown);
    let y = seen(a, ra, d, b, x);
    if x != ra {
        assert(over(a, ra, x));
        let p = a.par(x)->0;
        assert(a.par(x) is Some && a.has(p) && a.depth(p) + 1 == a.depth(x) && a.kids(p).contains(x));
        seen_in(a, ra, d, b, p);
        let q = seen(a, ra, d, b, p);
        let i = a.kids(p).index_of(x);
        kids_page(a, tree_f(), p);
        kids_page(d, page_f(), q);
        kid_depth(d, q, i);
        assert(d.kids(q)[i] == y);
        assert(page(d, q).kids[i] == page(d, d.kids(q)[i]));
        assert(tree_page(a, p).kids[i] == tree_page(a, a.kids(p)[i]));
    }
    kids_page(a, tree_f(), x);
    kids_page(d, page_f(), y);
}
pub proof fn seen_apart<'a, 'b>(a: TreeM<'a>, ra: NodeId, d: DocM<'b>, b: NodeId, x: NodeId, y: NodeId)
    requires same_page(a, ra, d, b), a.has(x), a.has(y), seen(a, ra, d, b, x) == seen(a, ra, d, b, y)
    ensures x == y
    decreases a.depth(x)
{
    seen_in(a, ra, d, b, x);
    seen_in(a, ra, d, b, y);
    assert(over(a, ra, x) && over(a, ra, y));
    over_ix(a, ra, x);
    over_ix(a, ra, y);
    if x != ra && y != ra {
        let (p, q) = (a.par(x)->0, a.par(y)->0);
        seen_apart(a, ra, d, b, p, q);
        let s = seen(a, ra, d, b, p);
        let (i, k) = (a.kids(p).index_of(x), a.kids(p).index_of(y));
        assert(a.kids(p).contains(x) && a.kids(p).contains(y));
        assert(d.kids(s)[i] == d.kids(s)[k]);
        seen_in(a, ra, d, b, p);
        assert(d.kids(s).no_duplicates());
        assert(i == k);
    }
}
pub open spec fn start_f<'a, 'b>(a: TreeM<'a>, ra: NodeId, d: DocM<'b>, b: NodeId) -> F { |x: NodeId| seen(a, ra, d, b, x) }
pub open spec fn no_c() -> Cs { |x: NodeId| false }
pub proof fn start_real<'a>(a: TreeM<'a>, m: ShM<'a>, ra: NodeId, r: NodeId, x: NodeId)
    requires whole(a, ra), hung(a, m, ra, r), real(m, r, x)
    ensures a.has(x), m.kids(x) == a.kids(x), x != ra ==> m.par(x) == a.par(x), x == ra ==> m.par(x) == Some(m.kids(r)[0])
{ let g = m.par(x); let k = m.kids(x); let i = m.kids(r)[0]; }
pub proof fn start_sim<'a, 'b>(a: TreeM<'a>, m: ShM<'a>, ra: NodeId, r: NodeId, d: DocM<'b>, b: NodeId, s: Slots)
    requires same_page(a, ra, d, b), hung(a, m, ra, r), s.contains_key(0u32) && s[0u32] == b
    ensures sim(m, r, d, s, start_f(a, ra, d, b), no_c())
{
    reveal(sim_but);
    let f = start_f(a, ra, d, b);
    let c = no_c();
    assert forall|x: NodeId| #![trigger f(x)] live(m, r, None, x) implies d.has(f(x)) && twin(m, d, f, x) by {
        start_real(a, m, ra, r, x);
        seen_in(a, ra, d, b, x);
        assert forall|i: int| #![trigger m.kids(x)[i]] #![trigger d.kids(f(x))[i]] 0 <= i < m.kids(x).len() implies d.kids(f(x))[i] == f(m.kids(x)[i]) by {
            let y = a.kids(x)[i];
            kid_depth(a, x, i);
            assert(a.kids(x).index_of(y) == i);
            assert(y != ra);
        }
    }
    assert forall|x: NodeId, y: NodeId| #![trigger f(x), f(y)] live(m, r, None, x) && live(m, r, None, y) && f(x) == f(y) implies x == y by {
        start_real(a, m, ra, r, x);
        start_real(a, m, ra, r, y);
        seen_apart(a, ra, d, b, x, y);
    }
    assert forall|x: NodeId, y: NodeId| #![trigger f(x), f(y)] live(m, r, None, x) && live(m, r, None, y) && !c(y) && d.par(f(x)) == Some(f(y)) implies m.par(x) == Some(y) by {
        start_real(a, m, ra, r, x);
        start_real(a, m, ra, r, y);
        seen_in(a, ra, d, b, x);
        seen_in(a, ra, d, b, y);
        assert(over(a, ra, y));
        over_ix(a, ra, y);
        assert(f(y) == seen(a, ra, d, b, y));
        if x == ra {
            assert(d.depth(b) == d.depth(f(y)) + 1);
        } else {
            seen_apart(a, ra, d, b, a.par(x)->0, y);
        }
    }
    assert(slot_twin(m, r, s, f)) by {
        assert forall|k: int| #![trigger m.kids(r)[k]] 0 <= k < m.kids(r).len() && m.kids(m.kids(r)[k]).len() > 0 implies
            s.contains_key(k as u32) && s[k as u32] == f(m.kids(m.kids(r)[k])[0]) by { assert(f(ra) == b); }
    }
}
pub proof fn start_state<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, b: NodeId, s: Slots)
    requires ready(j), fair(j), going(j, 0, m, sh), same_page(j.ta.0.arena@, j.ta.s_root(), d, b), plain(d, b), hung(j.ta.0.arena@, m, j.ta.s_root(), j.r), s.contains_key(0u32) && s[0u32] == b
    ensures state(j, 0, m, sh, d, s, start_f(j.ta.0.arena@, j.ta.s_root(), d, b), no_c())
{
    let a = j.ta.0.arena@;
    let ra = j.ta.s_root();
    let f = start_f(a, ra, d, b);
    let c = no_c();
    start_sim(a, m, ra, j.r, d, b, s);
    assert(clear(j, sh, c)) by { reveal(clear); }
    assert(spare(j, m, sh, d, f, c)) by {
        reveal(spare);
        assert forall|x: NodeId| #![trigger extra(j, m, sh, x)] extra(j, m, sh, x) implies idle(m, j.r, d, f, c, x) by { start_real(a, m, ra, j.r, x); }
    }
    assert(dat(j, 0, sh, d, f)) by {
        reveal(dat);
        assert forall|y: NodeId| #![trigger sh[y]] sh.contains_key(y) implies b_says(j, 0, y, d, f(sh[y])) by {
            let x = sh[y];
            assert(named(j, 0, y) && real(m, j.r, x)) by { reveal(going); reveal(st_name); }
            assert(mate(j, y) is Some);
            assert(x == mate(j, y)->0) by { reveal(going); reveal(st_name); }
            start_real(a, m, ra, j.r, x);
            seen_in(a, ra, d, b, x);
            assert(*j.ta.s_kind(x) == *j.tb.s_kind(y)) by { reveal(fair); }
            assert(tree_page(a, x).node == tree_f()(a.data(x)));
            assert(page(d, f(x)).node == page_f()(d.data(f(x))));
            assert(!(d.data(f(x)).kind is Document));
            assert(tree_node(a.data(x)) == page_node(d.data(f(x))));
        }
    }
}

// ---- vacuity guards: these must fail
#[verifier::rlimit(3)]
proof fn must_fail_start_state<'a, 'b, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, d: DocM<'b>, b: NodeId, s: Slots)
    requires ready(j), fair(j), going(j, 0, m, sh), same_page(j.ta.0.arena@, j.ta.s_root(), d, b), plain(d, b), hung(j.ta.0.arena@, m, j.ta.s_root(), j.r), s.contains_key(0u32) && s[0u32] == b
{
    start_state(j, m, sh, d, b, s);
    reveal(fair); reveal(dat); reveal(sim_but); reveal(ready); reveal(going); assert(false);
}

} // verus!
}
