// H12: the surroundings of the compared part stay as they are, so that no node is ever moved below itself.
pub mod whole_frame {
use vstd::prelude::*;
use crate::prelude::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_path::*;
use crate::forest_laws::*;
use crate::html_types::*;
use crate::html_patch::*;
use crate::shadow::{ShM, lead, slotted, real, slot_top, sput, slift, blanked, hung};
use crate::html_apply as ap;
use crate::html_apply::{DocM, empty_text, deep};
use crate::whole::*;
use crate::whole::place_in;
use crate::doc_build::TreeM;
use crate::whole_start::{same_page, seen, seen_in, seen_apart, start_f, start_real};
verus! {

/// Above the body, in the document as it was.
pub open spec fn outer<'b>(d0: DocM<'b>, x0: NodeId, y: NodeId) -> bool { d0.has(y) && over(d0, y, x0) && y != x0 }
/// Nothing that is compared is above the body; what is above it hangs where it was; each slot's root hangs nowhere, but for the body, which stays where it was.
#[verifier::opaque]
pub open spec fn framed<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, f: F, n: Option<NodeId>, d0: DocM<'b>, x0: NodeId, ra: NodeId) -> bool {
    &&& trees(d0) && d0.has(x0)
    &&& live(m, r, n, ra) && n != Some(ra) && f(ra) == x0 && d.has(x0) && d.par(x0) == d0.par(x0)
    &&& forall|y: NodeId| #![trigger d.par(y)] outer(d0, x0, y) ==> d.has(y) && d.par(y) == d0.par(y)
    &&& forall|x: NodeId| #![trigger f(x)] live(m, r, n, x) ==> !outer(d0, x0, f(x))
    &&& forall|x: NodeId| #![trigger f(x)] live(m, r, n, x) && n != Some(x) && slot_top(m, r, x) && x != ra ==> d.par(f(x)) is None
}
/// From one state of the two sides to the next.
pub open spec fn still_framed<'a, 'b>(r: NodeId, z: ShM<'a>, d: DocM<'b>, f: F, b: ShM<'a>, e: DocM<'b>, g: F, x: Option<NodeId>) -> bool {
    forall|d0: DocM<'b>, x0: NodeId, ra: NodeId| #[trigger] framed(z, r, d, f, None, d0, x0, ra) && x != Some(ra) ==> framed(b, r, e, g, None, d0, x0, ra)
}
proof fn not_body<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, f: F, n: Option<NodeId>, d0: DocM<'b>, x0: NodeId, ra: NodeId, p: NodeId, x: NodeId)
    requires framed(m, r, d, f, n, d0, x0, ra), live(m, r, n, p), d.par(f(x)) == Some(f(p))
    ensures f(x) != x0
{
    reveal(framed);
    if f(x) == x0 { let u = f(p); over_up(d0, x0, x0); let v = d0.par(x0); assert(d0.has(f(p)) && d0.depth(f(p)) < d0.depth(x0)); }
}
pub proof fn put_frame<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs, d0: DocM<'b>, x0: NodeId, ra: NodeId)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c), framed(a, r, ad, f, Some(n), d0, x0, ra)
    ensures framed(b, r, bd, grown(a, b, bd, f, p), None, d0, x0, ra)
{
    reveal(framed);
    let g = grown(a, b, bd, f, p);
    put_doc(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    let wd = bd.kids(f(p));
    let o = a.kids(p);
    assert(!outer(d0, x0, f(n)));
    if pos < o.len() { kid_real(a, r, p, pos); assert(!outer(d0, x0, f(o[pos]))); assert(ad.kids(f(p))[pos] == f(o[pos])); assert(ad.par(f(o[pos])) == Some(f(p))); not_body(a, r, ad, f, Some(n), d0, x0, ra, p, o[pos]); }
    assert(ra != n && f(ra) != f(n)) by { reveal(sim_but); let u = (f(ra), f(n)); }
    is_real(a, b, r, p, pos, n, slot, ra);
    assert forall|y: NodeId| #![trigger bd.par(y)] outer(d0, x0, y) implies bd.has(y) && bd.par(y) == d0.par(y) by { let u = ad.par(y); assert(ad.has(y)); }
    is_real(a, b, r, p, pos, n, slot, p);
    assert forall|x: NodeId| #![trigger g(x)] live(b, r, None, x) implies !outer(d0, x0, g(x)) by {
        if a.has(x) { was_real(a, b, r, p, pos, n, slot, x); let u = f(x); }
        else { let i = filler(a, b, r, p, pos, n, slot, x); assert(g(x) == wd[i]); if outer(d0, x0, wd[i]) { let u = ad.par(wd[i]); } }
    }
    assert forall|x: NodeId| #![trigger g(x)] live(b, r, None, x) && slot_top(b, r, x) && x != ra implies bd.par(g(x)) is None by {
        if !a.has(x) { let i = filler(a, b, r, p, pos, n, slot, x); assert(false); }
        else if x == n { assert(false); }
        else if pos < o.len() && x == o[pos] { }
        else {
            was_real(a, b, r, p, pos, n, slot, x);
            let w = a.par(x)->0;
            assert(b.par(x) == a.par(x));
            assert(a.has(w));
            let v = b.par(w);
            assert(slot_top(a, r, x));
            assert(f(x) != f(n) && ad.has(f(x))) by { reveal(sim_but); let u = (f(x), f(n)); }
            if pos < o.len() { assert(f(x) != f(o[pos])) by { reveal(sim_but); let u = (f(x), f(o[pos])); } }
            assert(bd.par(f(x)) == ad.par(f(x)));
        }
    }
}
pub proof fn lift_frame<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool, d0: DocM<'b>, x0: NodeId, ra: NodeId)
    requires x != ra, lift_pre(a, b, r, x, ad, s, bd, f, c, blank), framed(a, r, ad, f, None, d0, x0, ra)
    ensures framed(b, r, bd, lifted_map(a, b, bd, f, x), Some(x), d0, x0, ra)
{
    reveal(framed);
    let g = lifted_map(a, b, bd, f, x);
    lift_doc(a, b, r, x, ad, s, bd, f, c, blank);
    assert(live(a, r, None, x));
    assert(!outer(d0, x0, f(x)));
    assert(f(x) != x0) by { reveal(sim_but); let u = (f(x), f(ra)); }
    lift_real(a, b, r, x, ra);
    assert forall|y: NodeId| #![trigger bd.par(y)] outer(d0, x0, y) implies bd.has(y) && bd.par(y) == d0.par(y) by { let u = ad.par(y); assert(ad.has(y)); }
    assert forall|y: NodeId| #![trigger g(y)] live(b, r, Some(x), y) implies !outer(d0, x0, g(y)) by {
        if a.has(y) { lift_real(a, b, r, x, y); let u = f(y); }
        else { left(a, b, r, x, y); if outer(d0, x0, g(y)) { let u = ad.par(g(y)); } }
    }
    assert forall|y: NodeId| #![trigger g(y)] live(b, r, Some(x), y) && y != x && slot_top(b, r, y) && y != ra implies bd.par(g(y)) is None by {
        if a.has(y) {
            lift_real(a, b, r, x, y);
            let w = a.par(y)->0;
            assert(a.has(w));
            lift_real(a, b, r, x, w);
            assert(slot_top(a, r, y));
            assert(f(y) != f(x) && ad.has(f(y))) by { reveal(sim_but); let u = (f(y), f(x)); }
            assert(bd.par(f(y)) == ad.par(f(y)));
        } else {
            left(a, b, r, x, y);
            let q = a.par(x)->0;
            lift_real(a, b, r, x, q);
            assert(false);
        }
    }
}
pub proof fn park_frame<'a, 'b>(z: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, d: DocM<'b>, s: Slots, e: DocM<'b>, f: F, c: Cs, d0: DocM<'b>, x0: NodeId, ra: NodeId)
    requires x != ra, slotted(z, r), slotted(b, r), trees(d), trees(e), sim(z, r, d, s, f, c), real(z, r, x), slot_top(z, r, x), blanked(z, b, x), ap::lifted(d, e, f(x), true), framed(z, r, d, f, None, d0, x0, ra)
    ensures framed(b, r, e, with(f, b.kids(z.par(x)->0)[0], f(x)), None, d0, x0, ra)
{
    reveal(framed);
    let q = z.par(x)->0;
    assert(z.has(q) && z.kids(q).contains(x));
    let i = z.kids(q).index_of(x);
    assert(0 <= i < z.kids(q).len() && z.kids(q)[i] == x);
    let k = place_in(z, r, q);
    assert(z.kids(q).len() == 1 && i == 0);
    let h = b.kids(q)[0];
    let g = with(f, h, f(x));
    assert(live(z, r, None, x));
    assert(!outer(d0, x0, f(x)));
    assert(f(x) != x0) by { reveal(sim_but); let u = (f(x), f(ra)); }
    assert(live(b, r, None, ra)) by { assert(b.has(ra)); let v = b.par(ra); }
    assert(d.has(f(x))) by { reveal(sim_but); }
    assert forall|y: NodeId| #![trigger e.par(y)] outer(d0, x0, y) implies e.has(y) && e.par(y) == d0.par(y) by { let u = d.par(y); assert(d.has(y)); }
    assert forall|y: NodeId| live(b, r, None, y) implies (y == h || (live(z, r, None, y) && y != x && b.par(y) == z.par(y))) by { let w = b.par(y); assert(b.has(y)); if y != h { assert(z.has(y)); } }
    assert forall|y: NodeId| #![trigger g(y)] live(b, r, None, y) implies !outer(d0, x0, g(y)) by { let u = f(y); }
    assert forall|y: NodeId| #![trigger g(y)] live(b, r, None, y) && slot_top(b, r, y) && y != ra implies e.par(g(y)) is None by {
        if y != h {
            let w = z.par(y)->0;
            assert(z.has(w));
            let v = b.par(w);
            assert(w != x);
            assert(slot_top(z, r, y));
            assert(f(y) != f(x) && d.has(f(y))) by { reveal(sim_but); let u = (f(y), f(x)); }
            assert(e.par(f(y)) == d.par(f(y)));
        }
    }
}
pub proof fn made_frame<'a, 'b>(z: ShM<'a>, m: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, n: NodeId, y: NodeId, d0: DocM<'b>, x0: NodeId, ra: NodeId)
    requires slotted(z, r), slotted(m, r), created(z, m, n, m.data(n)), !d.has(y), n != r, trees(d), framed(z, r, d, f, None, d0, x0, ra)
    ensures framed(m, r, d, with(f, n, y), Some(n), d0, x0, ra)
{
    reveal(framed);
    let g = with(f, n, y);
    assert forall|x: NodeId| x != n implies live(m, r, Some(n), x) == live(z, r, None, x) by { assert(m.par(x) == z.par(x)); }
    assert(!outer(d0, x0, y)) by { if outer(d0, x0, y) { let u = d.par(y); } }
    assert forall|x: NodeId| #![trigger g(x)] live(m, r, Some(n), x) && x != n && slot_top(m, r, x) && x != ra implies d.par(g(x)) is None by {
        let u = f(x);
        let w = z.par(x)->0;
        assert(z.has(x) && z.has(w));
        let v = m.par(w);
        assert(slot_top(z, r, x));
    }
    assert forall|x: NodeId| #![trigger g(x)] live(m, r, Some(n), x) implies !outer(d0, x0, g(x)) by { let u = f(x); }
}
pub proof fn told_frame<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, e: DocM<'b>, f: F, x: NodeId, d0: DocM<'b>, x0: NodeId, ra: NodeId)
    requires ap::told(d, e, x), framed(m, r, d, f, None, d0, x0, ra)
    ensures framed(m, r, e, f, None, d0, x0, ra)
{
    reveal(framed);
    assert forall|y: NodeId| #![trigger e.par(y)] outer(d0, x0, y) implies e.has(y) && e.par(y) == d0.par(y) by { let u = d.par(y); }
}
pub proof fn start_frame<'a, 'b>(a: TreeM<'a>, m: ShM<'a>, ra: NodeId, r: NodeId, d: DocM<'b>, b: NodeId)
    requires same_page(a, ra, d, b), hung(a, m, ra, r)
    ensures framed(m, r, d, start_f(a, ra, d, b), None, d, b, ra)
{
    reveal(framed);
    let f = start_f(a, ra, d, b);
    assert forall|x: NodeId| #![trigger f(x)] live(m, r, None, x) implies !outer(d, b, f(x)) && (slot_top(m, r, x) ==> x == ra) by {
        start_real(a, m, ra, r, x);
        seen_in(a, ra, d, b, x);
        if outer(d, b, f(x)) { over_ix(d, f(x), b); over_ix(d, b, f(x)); }
        if x != ra {
            let p = a.par(x)->0;
            assert(over(a, ra, x));
            assert(a.has(p));
            if p != ra { assert(over(a, ra, p)); let v = a.par(p); assert(a.par(p) is Some && a.has(a.par(p)->0)); assert(m.par(p) == a.par(p)); }
            assert(m.par(p) != Some(r));
        }
    }
}

// ---- no node is moved below itself
proof fn none_above<D>(m: ForestM<D>, x: NodeId, y: NodeId)
    requires x != y, m.par(y) is None
    ensures !above(m, x, y)
{
    if above(m, x, y) {
        let k = choose|k: nat| #[trigger] up(m, y, k) == Some(x);
        none_up(m, y, k);
    }
}
proof fn none_up<D>(m: ForestM<D>, y: NodeId, k: nat)
    requires m.par(y) is None, k > 0
    ensures up(m, y, k) is None
    decreases k
{ if k > 1 { none_up(m, y, (k - 1) as nat); } else { assert(up(m, y, 0) == Some(y)); } }
proof fn outer_apart<'b>(w: DocM<'b>, d0: DocM<'b>, x0: NodeId, x: NodeId, q: NodeId)
    requires trees(d0), d0.has(x0), outer(d0, x0, q), !outer(d0, x0, x), forall|y: NodeId| #![trigger w.par(y)] outer(d0, x0, y) ==> w.has(y) && w.par(y) == d0.par(y)
    ensures !above(w, x, q)
    decreases d0.depth(q)
{
    if w.par(q) is None { none_above(w, x, q); }
    else if above(w, x, q) {
        above_kid(w, x, q);
        let o = d0.par(q)->0;
        over_up(d0, q, x0);
        over_ix(d0, q, x0);
        assert(d0.has(o) && d0.depth(o) + 1 == d0.depth(q));
        outer_apart(w, d0, x0, x, o);
    }
}
pub proof fn apart<'a, 'b>(m: ShM<'a>, r: NodeId, w: DocM<'b>, s: Slots, h: F, c: Cs, x: NodeId, d0: DocM<'b>, x0: NodeId, ra: NodeId, t: NodeId, path: Seq<u32>)
    requires slotted(m, r), trees(w), sim_but(m, r, w, s, h, c, Some(x)), sim(m, r, w, s, h, c), framed(m, r, w, h, Some(x), d0, x0, ra), m.par(x) is None, real(m, r, x),
        live(m, r, None, t), slot_top(m, r, t), walk(m, t, path) is Some
    ensures !above(w, h(x), h(walk(m, t, path)->0))
    decreases path.len()
{
    walk_sim(m, r, w, s, h, c, t, path);
    let y = walk(m, t, path)->0;
    assert(live(m, r, Some(x), x) && live(m, r, Some(x), y) && x != y);
    assert(h(x) != h(y)) by { reveal(sim_but); let u = (h(x), h(y)); }
    if path.len() == 0 {
        reveal(framed);
        assert(y == t);
        let u = h(t);
        assert(!outer(d0, x0, h(x)));
        if w.par(h(t)) is None { none_above(w, h(x), h(t)); }
        else {
            let q = d0.par(x0)->0;
            over_up(d0, x0, x0);
            assert(d0.has(q) && d0.depth(q) < d0.depth(x0));
            outer_apart(w, d0, x0, h(x), q);
            if above(w, h(x), h(t)) { above_kid(w, h(x), h(t)); }
        }
    } else {
        let v = path.drop_last();
        let p = walk(m, t, v)->0;
        let i = path.last() as int;
        apart(m, r, w, s, h, c, x, d0, x0, ra, t, v);
        walk_sim(m, r, w, s, h, c, t, v);
        assert(!c(p) && w.has(h(p)) && twin(m, w, h, p)) by { reveal(sim_but); }
        assert(w.kids(h(p))[i] == h(y));
        assert(w.par(h(y)) == Some(h(p)));
        if above(w, h(x), h(y)) { above_kid(w, h(x), h(y)); }
    }
}
/// A move that is right in the working copy never puts a node of the document below itself.
pub proof fn mov_sound<'a, 'b>(z: ShM<'a>, m: ShM<'a>, r: NodeId, p: NodeId, x: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, from: Seq<u32>, to: Seq<u32>, d0: DocM<'b>, x0: NodeId, ra: NodeId, w: DocM<'b>)
    requires x != ra, slotted(z, r), slotted(m, r), trees(d), trees(w), sim(z, r, d, s, f, c), slift(z, m, r, x), framed(z, r, d, f, None, d0, x0, ra),
        to.len() > 0, lead(m, r, to.drop_last()) == Some(p), lead(z, r, from) == Some(x), real(z, r, x), above(z, r, x), ap::lifted(d, w, f(x), deep(from))
    ensures match place(w, s, to) { Some(y) => !above(w, f(x), y.0), None => true }
{
    nav_sim(z, r, d, s, f, c, from);
    up_up(z, r, x);
    let h = lift_step(z, m, r, x, d, s, w, f, c, deep(from));
    lift_frame(z, m, r, x, d, s, w, f, c, deep(from), d0, x0, ra);
    drop_n(m, r, w, s, h, c, x);
    place_sim(m, r, w, s, h, c, to, p);
    let v = to.drop_last();
    let k = v[0] as int;
    slot_real(m, r, k);
    let t = m.kids(m.kids(r)[k])[0];
    apart(m, r, w, s, h, c, x, d0, x0, ra, t, v.skip(1));
}

} // verus!
}
