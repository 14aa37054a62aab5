// H01: the document and the working copy develop alike, so that the patches of a diff lead to the new page.
pub mod whole {
use vstd::prelude::*;
use crate::prelude::*;
use crate::tree_spec::{DiffTree, TreeTypes, Properties, tree_ok, in_op};
use crate::matching_types::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_path::*;
use crate::forest_laws::{over};
use crate::html_types::*;
use crate::html_patch::*;
use crate::page_content::{PageV, NodeV};
use crate::html_props::*;
use crate::chawathe_spec::*;
use crate::shadow_steps::*;
use crate::shadow_plan::{late, late_settled, hidden_stays, vis_up, not_gone, wanted, all_up};
use crate::shadow_convert::*;
use crate::html_dom::{NodeData, NodeKind};
use crate::shadow::{above_up, ShM, lead, slotted, real, slot_top, sput, slift, blanked, blank, hung};
use crate::html_apply as ap;
use crate::whole_frame::{framed, still_framed, put_frame, lift_frame, park_frame, made_frame, told_frame};
use crate::html_apply::{DocM, empty_text, deep};
verus! {

/// Which node of the document a node of the working copy stands for.
pub type F = spec_fn(NodeId) -> NodeId;
/// The nodes whose children are not compared.
pub type Cs = spec_fn(NodeId) -> bool;

pub open spec fn twin<'a, 'b>(m: ShM<'a>, d: DocM<'b>, f: F, x: NodeId) -> bool {
    d.kids(f(x)).len() == m.kids(x).len() && forall|i: int| #![trigger m.kids(x)[i]] #![trigger d.kids(f(x))[i]] 0 <= i < m.kids(x).len() ==> d.kids(f(x))[i] == f(m.kids(x)[i])
}
pub open spec fn slot_twin<'a>(m: ShM<'a>, r: NodeId, s: Slots, f: F) -> bool {
    forall|k: int| #![trigger m.kids(r)[k]] 0 <= k < m.kids(r).len() && m.kids(m.kids(r)[k]).len() > 0 ==>
        s.contains_key(k as u32) && s[k as u32] == f(m.kids(m.kids(r)[k])[0])
}
/// In use: hanging somewhere, or `n`, which is on its way.
pub open spec fn live<'a>(m: ShM<'a>, r: NodeId, n: Option<NodeId>, x: NodeId) -> bool { real(m, r, x) && (m.par(x) is Some || n == Some(x)) }
/// The same, but for `n`, which has no place yet.
#[verifier::opaque]
pub open spec fn sim_but<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, n: Option<NodeId>) -> bool {
    &&& forall|x: NodeId| #![trigger f(x)] live(m, r, n, x) && n != Some(x) ==> d.has(f(x))
    &&& forall|x: NodeId, y: NodeId| #![trigger f(x), f(y)] live(m, r, n, x) && live(m, r, n, y) && f(x) == f(y) ==> x == y
    &&& forall|x: NodeId| #![trigger f(x)] live(m, r, n, x) && n != Some(x) && !c(x) ==> twin(m, d, f, x)
    &&& forall|x: NodeId| #![trigger c(x)] c(x) ==> real(m, r, x) && m.kids(x).len() == 0
    &&& forall|x: NodeId, y: NodeId| #![trigger f(x), f(y)] live(m, r, n, x) && live(m, r, n, y) && n != Some(x) && !c(y) && d.par(f(x)) == Some(f(y)) ==> m.par(x) == Some(y)
    &&& slot_twin(m, r, s, f)
}
pub open spec fn sim<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs) -> bool { sim_but(m, r, d, s, f, c, None) }

// ---- paths
pub proof fn kid_real<'a>(m: ShM<'a>, r: NodeId, x: NodeId, i: int)
    requires slotted(m, r), real(m, r, x), 0 <= i < m.kids(x).len()
    ensures live(m, r, None, m.kids(x)[i])
{ kid_depth(m, x, i); }
pub proof fn walk_sim<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, x: NodeId, path: Seq<u32>)
    requires slotted(m, r), sim(m, r, d, s, f, c), live(m, r, None, x), walk(m, x, path) is Some
    ensures live(m, r, None, walk(m, x, path)->0), walk(d, f(x), path) == Some(f(walk(m, x, path)->0))
    decreases path.len()
{
    if path.len() > 0 {
        walk_sim(m, r, d, s, f, c, x, path.drop_last());
        let y = walk(m, x, path.drop_last())->0;
        let i = path.last() as int;
        kid_real(m, r, y, i);
        reveal(sim_but);
        assert(!c(y));
        assert(twin(m, d, f, y));
        assert(d.kids(f(y))[i] == f(m.kids(y)[i]));
    }
}
pub proof fn slot_real<'a>(m: ShM<'a>, r: NodeId, k: int)
    requires slotted(m, r), 0 <= k < m.kids(r).len(), m.kids(m.kids(r)[k]).len() > 0
    ensures live(m, r, None, m.kids(m.kids(r)[k])[0]), slot_top(m, r, m.kids(m.kids(r)[k])[0])
{
    let t = m.kids(r)[k];
    kid_depth(m, r, k);
    kid_depth(m, t, 0);
}
pub proof fn nav_sim<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, path: Seq<u32>)
    requires slotted(m, r), sim(m, r, d, s, f, c), lead(m, r, path) is Some
    ensures live(m, r, None, lead(m, r, path)->0), nav(d, s, path) == Some(f(lead(m, r, path)->0)), deep(path) == !slot_top(m, r, lead(m, r, path)->0)
{
    let k = path[0] as int;
    slot_real(m, r, k);
    let t = m.kids(m.kids(r)[k])[0];
    assert(s.contains_key(k as u32) && s[k as u32] == f(t)) by { reveal(sim_but); assert(m.kids(r)[k] == m.kids(r)[k]); }
    walk_sim(m, r, d, s, f, c, t, path.skip(1));
    if path.len() > 1 {
        let w = path.skip(1);
        walk_sim(m, r, d, s, f, c, t, w.drop_last());
        let y = walk(m, t, w.drop_last())->0;
        kid_depth(m, y, w.last() as int);
    } else { assert(path.skip(1).len() == 0); }
}
pub proof fn place_sim<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, path: Seq<u32>, p: NodeId)
    requires slotted(m, r), sim(m, r, d, s, f, c), path.len() > 0, lead(m, r, path.drop_last()) == Some(p)
    ensures place(d, s, path) == Some((f(p), path.last() as int))
{ nav_sim(m, r, d, s, f, c, path.drop_last()); }

// ---- placing a node
pub open spec fn grown<'a, 'b>(a: ShM<'a>, b: ShM<'a>, bd: DocM<'b>, f: F, p: NodeId) -> F {
    |x: NodeId| if a.has(x) { f(x) } else { bd.kids(f(p))[b.kids(p).index_of(x)] }
}
pub open spec fn extends<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, bd: DocM<'b>, f: F, g: F) -> bool {
    &&& forall|x: NodeId| #![trigger g(x)] a.has(x) ==> g(x) == f(x)
    &&& forall|x: NodeId| #![trigger g(x)] real(b, r, x) && !a.has(x) ==> empty_text(bd.data(g(x)))
}
/// A new empty text node of the working copy, and where it is.
pub proof fn filler<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, x: NodeId) -> (i: int)
    requires slotted(a, r), slotted(b, r), real(a, r, p), a.has(n), sput(a, b, r, p, pos, n, slot), real(b, r, x), !a.has(x)
    ensures pos >= a.kids(p).len(), a.kids(p).len() <= i < pos, i == b.kids(p).index_of(x), b.kids(p)[i] == x, b.kids(x).len() == 0, b.par(x) == Some(p), blank(b.data(x))
{
    if pos < a.kids(p).len() { assert(x == b.kids(r).last()); }
    assert(b.par(x) == Some(p));
    assert(b.kids(p).contains(x));
    let i = b.kids(p).index_of(x);
    assert(0 <= i < b.kids(p).len() && b.kids(p)[i] == x);
    if i < a.kids(p).len() { assert(b.kids(p)[i] == a.kids(p)[i]); assert(a.has(a.kids(p)[i])); }
    i
}
pub proof fn was_real<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, x: NodeId)
    requires slotted(a, r), slotted(b, r), real(a, r, p), a.has(n), a.par(n) is None, 0 <= pos, sput(a, b, r, p, pos, n, slot), live(b, r, None, x), a.has(x)
    ensures live(a, r, Some(n), x)
{
    if a.par(x) == Some(r) {
        let y = b.par(x);
        if pos < a.kids(p).len() { assert(a.par(a.kids(p)[pos]) == Some(p)); }
    }
}
pub proof fn is_real<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, x: NodeId)
    requires slotted(a, r), slotted(b, r), real(a, r, p), a.has(n), a.par(n) is None, n != r, 0 <= pos, sput(a, b, r, p, pos, n, slot), real(a, r, x)
    ensures real(b, r, x), live(a, r, Some(n), x) ==> live(b, r, None, x)
{
    let y = b.par(x);
    assert(b.has(x));
    if pos < a.kids(p).len() { let s = b.kids(r).last(); assert(b.par(s) == Some(r)); if x == a.kids(p)[pos] { assert(s != r); } }
}
pub open spec fn put_pre<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs) -> bool {
    &&& slotted(a, r) && slotted(b, r) && trees(ad) && trees(bd)
    &&& sim_but(a, r, ad, s, f, c, Some(n))
    &&& real(a, r, n) && a.par(n) is None && live(a, r, None, p) && p != n && !c(p) && 0 <= pos
    &&& sput(a, b, r, p, pos, n, slot) && ap::put(ad, s, bd, t, (f(p), pos), f(n), slot)
    &&& (c(n) || twin(b, bd, f, n))
    &&& bd.has(f(n))
    &&& a.kids(r).len() < u32::MAX
}
pub proof fn put_doc<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c)
    ensures ({ let o = a.kids(p); let w = b.kids(p); let od = ad.kids(f(p)); let wd = bd.kids(f(p));
        &&& twin(a, ad, f, p) && ad.has(f(p)) && bd.has(f(p)) && f(p) != f(n)
        &&& wd.len() == w.len() && pos < w.len() && wd[pos] == f(n) && w[pos] == n
        &&& forall|i: int| #![trigger wd[i]] 0 <= i < o.len() && i != pos ==> wd[i] == f(o[i]) && w[i] == o[i]
        &&& forall|i: int| #![trigger wd[i]] o.len() <= i < pos ==> !ad.has(wd[i]) && empty_text(bd.data(wd[i])) && bd.kids(wd[i]).len() == 0
        &&& forall|y: NodeId| #![trigger bd.has(y)] ad.has(y) ==> bd.has(y)
        &&& forall|y: NodeId| #![trigger bd.kids(y)] ad.has(y) && y != f(p) ==> bd.kids(y) == ad.kids(y)
        &&& pos < o.len() ==> slot is Some && t == s.insert(slot->0, f(o[pos])) && bd.par(f(o[pos])) is None
            && forall|y: NodeId| #![trigger bd.par(y)] ad.has(y) && y != f(n) && y != f(o[pos]) ==> bd.par(y) == ad.par(y)
        &&& pos >= o.len() ==> t == s && forall|y: NodeId| #![trigger bd.par(y)] ad.has(y) && y != f(n) ==> bd.par(y) == ad.par(y)
        &&& bd.par(f(n)) == Some(f(p))
    })
{
    reveal(sim_but);
    assert(twin(a, ad, f, p));
    assert(f(p) != f(n)) by { let u = (f(p), f(n)); }
    let o = a.kids(p);
    if pos < o.len() { assert(ad.kids(f(p))[pos] == f(o[pos])); assert(bd.kids(f(p)) == ad.kids(f(p)).update(pos, f(n))); }
    assert forall|i: int| #![trigger bd.kids(f(p))[i]] 0 <= i < o.len() && i != pos implies bd.kids(f(p))[i] == f(o[i]) && b.kids(p)[i] == o[i] by {
        assert(ad.kids(f(p))[i] == f(o[i]));
    }
}

proof fn put_twin<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs, x: NodeId)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c), live(b, r, None, x), !c(x)
    ensures twin(b, bd, grown(a, b, bd, f, p), x)
{
    let g = grown(a, b, bd, f, p);
    put_doc(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    let o = a.kids(p);
    let w = b.kids(p);
    let wd = bd.kids(f(p));
    if !a.has(x) {
        let i = filler(a, b, r, p, pos, n, slot, x);
        assert(g(x) == wd[i]);
    } else {
        was_real(a, b, r, p, pos, n, slot, x);
        if x == p {
            assert forall|i: int| #![trigger b.kids(p)[i]] #![trigger bd.kids(g(p))[i]] 0 <= i < b.kids(p).len() implies bd.kids(g(p))[i] == g(b.kids(p)[i]) by {
                if i < o.len() && i != pos { assert(a.has(o[i])); let z = wd[i]; }
                else if i != pos {
                    assert(!a.has(w[i]));
                    assert(w.no_duplicates());
                    assert(w.contains(w[i]));
                    let k = w.index_of(w[i]);
                    assert(0 <= k < w.len() && w[k] == w[i]);
                }
            }
        } else if x == n {
            assert(b.kids(n) == a.kids(n));
            assert forall|i: int| #![trigger b.kids(n)[i]] #![trigger bd.kids(g(n))[i]] 0 <= i < b.kids(n).len() implies bd.kids(g(n))[i] == g(b.kids(n)[i]) by { assert(a.has(a.kids(n)[i])); assert(bd.kids(f(n))[i] == f(b.kids(n)[i])); }
        } else {
            assert(b.kids(x) == a.kids(x));
            assert(ad.has(f(x)) && twin(a, ad, f, x) && f(x) != f(p)) by { reveal(sim_but); let u = (f(x), f(p)); }
            assert(bd.kids(f(x)) == ad.kids(f(x)));
            assert forall|i: int| #![trigger b.kids(x)[i]] #![trigger bd.kids(g(x))[i]] 0 <= i < b.kids(x).len() implies bd.kids(g(x))[i] == g(b.kids(x)[i]) by { assert(a.has(a.kids(x)[i])); assert(ad.kids(f(x))[i] == f(a.kids(x)[i])); }
        }
    }
}
proof fn put_slots<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c)
    ensures slot_twin(b, r, t, grown(a, b, bd, f, p))
{
    let g = grown(a, b, bd, f, p);
    put_doc(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    assert(slot_twin(a, r, s, f)) by { reveal(sim_but); }
    assert forall|k: int| #![trigger b.kids(r)[k]] 0 <= k < b.kids(r).len() && b.kids(b.kids(r)[k]).len() > 0 implies
        t.contains_key(k as u32) && t[k as u32] == g(b.kids(b.kids(r)[k])[0]) by {
        if k < a.kids(r).len() {
            let y = a.kids(r)[k];
            assert(b.kids(r)[k] == y);
            assert(a.has(y) && a.par(y) == Some(r));
            assert(b.kids(y) == a.kids(y));
            assert(a.has(a.kids(y)[0]));
        } else {
            assert(pos < a.kids(p).len());
            assert(a.has(a.kids(p)[pos]));
            assert(b.kids(b.kids(r)[k]) == seq![a.kids(p)[pos]]);
        }
    }
}
proof fn put_apart<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs, x: NodeId, y: NodeId)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c), live(b, r, None, x), live(b, r, None, y), grown(a, b, bd, f, p)(x) == grown(a, b, bd, f, p)(y)
    ensures x == y
{
    let g = grown(a, b, bd, f, p);
    put_doc(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    let wd = bd.kids(f(p));
    assert(wd.no_duplicates());
    if a.has(x) { was_real(a, b, r, p, pos, n, slot, x); assert(x != n ==> ad.has(f(x))) by { reveal(sim_but); } }
    if a.has(y) { was_real(a, b, r, p, pos, n, slot, y); assert(y != n ==> ad.has(f(y))) by { reveal(sim_but); } }
    if a.has(x) && a.has(y) { reveal(sim_but); let u = (f(x), f(y)); }
    else if !a.has(x) && !a.has(y) { let i = filler(a, b, r, p, pos, n, slot, x); let k = filler(a, b, r, p, pos, n, slot, y); assert(wd[i] == wd[k]); }
    else if !a.has(x) { let i = filler(a, b, r, p, pos, n, slot, x); assert(g(x) == wd[i]); assert(!ad.has(wd[i])); assert(y == n); assert(wd[pos] == f(n)); }
    else { let i = filler(a, b, r, p, pos, n, slot, y); assert(g(y) == wd[i]); assert(!ad.has(wd[i])); assert(x == n); assert(wd[pos] == f(n)); }
}
proof fn put_up<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs, x: NodeId, y: NodeId)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c), live(b, r, None, x), live(b, r, None, y), !c(y), bd.par(grown(a, b, bd, f, p)(x)) == Some(grown(a, b, bd, f, p)(y))
    ensures b.par(x) == Some(y)
{
    let g = grown(a, b, bd, f, p);
    put_doc(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    let wd = bd.kids(f(p));
    is_real(a, b, r, p, pos, n, slot, p);
    if !a.has(x) {
        let i = filler(a, b, r, p, pos, n, slot, x);
        assert(bd.par(wd[i]) == Some(f(p)));
        put_apart(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c, y, p);
    } else if x == n {
        put_apart(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c, y, p);
    } else {
        was_real(a, b, r, p, pos, n, slot, x);
        assert(ad.has(f(x)) && f(x) != f(n)) by { reveal(sim_but); let u = (f(x), f(n)); }
        if pos < a.kids(p).len() {
            let d = a.kids(p)[pos];
            assert(a.has(d) && a.par(d) == Some(p));
            assert(x != d);
            if f(x) == f(d) {
                kid_real(a, r, p, pos);
                assert(false) by { reveal(sim_but); let u = (f(x), f(d)); }
            }
        }
        assert(bd.par(f(x)) == ad.par(f(x)));
        if !a.has(y) { let i = filler(a, b, r, p, pos, n, slot, y); assert(!ad.has(wd[i])); assert(ad.has(ad.par(f(x))->0)); }
        else {
            was_real(a, b, r, p, pos, n, slot, y);
            assert(a.par(x) == Some(y)) by { reveal(sim_but); let u = (f(x), f(y)); }
            if pos < a.kids(p).len() { assert(x != a.kids(p)[pos]); }
            assert(b.par(x) == a.par(x));
        }
    }
}
/// After the same node went to the same place on both sides, the sides still agree.
pub proof fn put_step<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs) -> (g: F)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c)
    ensures sim(b, r, bd, t, g, c), extends(a, b, r, bd, f, g), g == grown(a, b, bd, f, p)
{
    let g = grown(a, b, bd, f, p);
    put_doc(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    let wd = bd.kids(f(p));
    assert forall|x: NodeId| #![trigger g(x)] real(b, r, x) && !a.has(x) implies empty_text(bd.data(g(x))) by { let i = filler(a, b, r, p, pos, n, slot, x); assert(g(x) == wd[i]); }
    assert forall|x: NodeId| #![trigger g(x)] live(b, r, None, x) implies bd.has(g(x)) by {
        if a.has(x) { was_real(a, b, r, p, pos, n, slot, x); if x != n { assert(ad.has(f(x))) by { reveal(sim_but); } } }
        else { let i = filler(a, b, r, p, pos, n, slot, x); assert(bd.has(wd[i])); }
    }
    assert forall|x: NodeId, y: NodeId| #![trigger g(x), g(y)] live(b, r, None, x) && live(b, r, None, y) && g(x) == g(y) implies x == y by { put_apart(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c, x, y); }
    assert forall|x: NodeId| #![trigger g(x)] live(b, r, None, x) && !c(x) implies twin(b, bd, g, x) by { put_twin(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c, x); }
    assert forall|x: NodeId, y: NodeId| #![trigger g(x), g(y)] live(b, r, None, x) && live(b, r, None, y) && !c(y) && bd.par(g(x)) == Some(g(y)) implies b.par(x) == Some(y) by { put_up(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c, x, y); }
    put_slots(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    assert forall|x: NodeId| #![trigger c(x)] c(x) implies real(b, r, x) && b.kids(x).len() == 0 by { assert(a.has(x) && a.kids(x).len() == 0 && real(a, r, x)) by { reveal(sim_but); } assert(b.kids(x) == a.kids(x)); is_real(a, b, r, p, pos, n, slot, x); }
    reveal(sim_but);
    g
}

// ---- taking a node away
pub open spec fn lifted_map<'a, 'b>(a: ShM<'a>, b: ShM<'a>, bd: DocM<'b>, f: F, x: NodeId) -> F {
    |y: NodeId| if a.has(y) { f(y) } else { bd.kids(f(a.par(x)->0))[b.kids(a.par(x)->0).index_of(y)] }
}
pub open spec fn lift_pre<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool) -> bool {
    &&& slotted(a, r) && slotted(b, r) && trees(ad) && trees(bd)
    &&& sim(a, r, ad, s, f, c)
    &&& real(a, r, x) && a.par(x) is Some && a.par(a.par(x)->0) is Some
    &&& slift(a, b, r, x) && ap::lifted(ad, bd, f(x), blank)
    &&& !slot_top(a, r, x) ==> blank
}
/// The empty text node left behind.
pub proof fn left<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, y: NodeId)
    requires slotted(a, r), slotted(b, r), real(a, r, x), a.par(x) is Some, slift(a, b, r, x), b.has(y), !a.has(y)
    ensures !slot_top(a, r, x), ({ let q = a.par(x)->0; let i = a.kids(q).index_of(x); 0 <= i < a.kids(q).len() && a.kids(q)[i] == x && y == b.kids(q)[i] && b.kids(q).index_of(y) == i && b.kids(y).len() == 0 && b.par(y) == Some(q) && blank(b.data(y)) && q != r && real(a, r, q)
        && b.kids(q) == a.kids(q).update(i, y) })
{
    let q = a.par(x)->0;
    assert(a.kids(q).contains(x));
    let i = a.kids(q).index_of(x);
    assert(0 <= i < a.kids(q).len() && a.kids(q)[i] == x);
    let w = b.kids(q);
    assert(b.has(q));
    assert(w.no_duplicates());
    assert(w[i] == y);
    assert(w.contains(y));
    let k = w.index_of(y);
    assert(0 <= k < w.len() && w[k] == y);
}
pub proof fn lift_doc<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool)
    requires lift_pre(a, b, r, x, ad, s, bd, f, c, blank)
    ensures ad.has(f(x)), bd.par(f(x)) is None,
        forall|y: NodeId| #![trigger bd.kids(y)] ad.has(y) && ad.par(f(x)) != Some(y) ==> bd.kids(y) == ad.kids(y),
        !slot_top(a, r, x) ==> ({ let q = a.par(x)->0; let i = a.kids(q).index_of(x); let e = bd.kids(f(q))[i];
            &&& live(a, r, None, q) && !c(q) && ad.has(f(q)) && ad.par(f(x)) == Some(f(q)) && twin(a, ad, f, q)
            &&& 0 <= i < a.kids(q).len() && a.kids(q)[i] == x && ad.kids(f(q))[i] == f(x)
            &&& bd.kids(f(q)) == ad.kids(f(q)).update(i, e) && !ad.has(e) && bd.has(e) && bd.par(e) == Some(f(q)) && empty_text(bd.data(e)) && bd.kids(e).len() == 0
            &&& b.kids(q) == a.kids(q).update(i, b.kids(q)[i]) && !a.has(b.kids(q)[i]) }),
        slot_top(a, r, x) ==> forall|y: NodeId| #![trigger f(y)] live(a, r, None, y) && !c(y) ==> ad.par(f(x)) != Some(f(y)),
{
    let q = a.par(x)->0;
    assert(ad.has(f(x))) by { reveal(sim_but); }
    if !slot_top(a, r, x) {
        assert(a.has(q) && a.kids(q).contains(x));
        let i = a.kids(q).index_of(x);
        assert(0 <= i < a.kids(q).len() && a.kids(q)[i] == x);
        assert(real(a, r, q)) by { if q == r {} }
        assert(a.par(q) is Some);
        assert(!c(q) && ad.has(f(q)) && twin(a, ad, f, q)) by { reveal(sim_but); }
        assert(ad.kids(f(q))[i] == f(x));
        assert(ad.par(f(x)) == Some(f(q)));
        let od = ad.kids(f(q));
        assert(od.no_duplicates() && od.contains(f(x)));
        let k = od.index_of(f(x));
        assert(0 <= k < od.len() && od[k] == f(x));
        assert(k == i);
    } else {
        assert forall|y: NodeId| #![trigger f(y)] live(a, r, None, y) && !c(y) implies ad.par(f(x)) != Some(f(y)) by {
            if ad.par(f(x)) == Some(f(y)) { assert(a.par(x) == Some(y)) by { reveal(sim_but); let u = (f(x), f(y)); } }
        }
    }
}
pub proof fn lift_real<'a>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, y: NodeId)
    requires slotted(a, r), slotted(b, r), real(a, r, x), a.par(x) is Some, slift(a, b, r, x), a.has(y)
    ensures real(b, r, y) == real(a, r, y), live(b, r, Some(x), y) == live(a, r, None, y), b.has(y), y != x ==> b.par(y) == a.par(y), b.par(x) is None
{ let z = b.par(y); let w = b.par(x); }
proof fn lift_apart<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool, y: NodeId, z: NodeId)
    requires lift_pre(a, b, r, x, ad, s, bd, f, c, blank), live(b, r, Some(x), y), live(b, r, Some(x), z), lifted_map(a, b, bd, f, x)(y) == lifted_map(a, b, bd, f, x)(z)
    ensures y == z
{
    lift_doc(a, b, r, x, ad, s, bd, f, c, blank);
    if a.has(y) { lift_real(a, b, r, x, y); } else { left(a, b, r, x, y); }
    if a.has(z) { lift_real(a, b, r, x, z); } else { left(a, b, r, x, z); }
    reveal(sim_but);
    let u = (f(y), f(z));
}
proof fn lift_twin<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool, y: NodeId)
    requires lift_pre(a, b, r, x, ad, s, bd, f, c, blank), live(b, r, Some(x), y), !c(y)
    ensures twin(b, bd, lifted_map(a, b, bd, f, x), y)
{
    let g = lifted_map(a, b, bd, f, x);
    lift_doc(a, b, r, x, ad, s, bd, f, c, blank);
    let q = a.par(x)->0;
    if !a.has(y) { left(a, b, r, x, y); }
    else {
        lift_real(a, b, r, x, y);
        assert(ad.has(f(y)) && twin(a, ad, f, y)) by { reveal(sim_but); }
        if y == q {
            assert(!slot_top(a, r, x));
            let i = a.kids(q).index_of(x);
            let e = b.kids(q)[i];
            left(a, b, r, x, e);
            assert forall|k: int| #![trigger b.kids(q)[k]] #![trigger bd.kids(g(q))[k]] 0 <= k < b.kids(q).len() implies bd.kids(g(q))[k] == g(b.kids(q)[k]) by {
                if k != i { assert(a.has(a.kids(q)[k])); assert(b.kids(q)[k] == a.kids(q)[k]); assert(ad.kids(f(q))[k] == f(a.kids(q)[k])); }
            }
        } else {
            assert(b.kids(y) == a.kids(y));
            assert(ad.par(f(x)) != Some(f(y))) by { if !slot_top(a, r, x) { reveal(sim_but); let u = (f(y), f(q)); } }
            assert(bd.kids(f(y)) == ad.kids(f(y)));
            assert forall|k: int| #![trigger b.kids(y)[k]] #![trigger bd.kids(g(y))[k]] 0 <= k < b.kids(y).len() implies bd.kids(g(y))[k] == g(b.kids(y)[k]) by { assert(a.has(a.kids(y)[k])); assert(ad.kids(f(y))[k] == f(a.kids(y)[k])); }
        }
    }
}
proof fn lift_up<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool, y: NodeId, z: NodeId)
    requires lift_pre(a, b, r, x, ad, s, bd, f, c, blank), y != x, live(b, r, Some(x), y), live(b, r, Some(x), z), !c(z), bd.par(lifted_map(a, b, bd, f, x)(y)) == Some(lifted_map(a, b, bd, f, x)(z))
    ensures b.par(y) == Some(z)
{
    let g = lifted_map(a, b, bd, f, x);
    lift_doc(a, b, r, x, ad, s, bd, f, c, blank);
    let q = a.par(x)->0;
    if !a.has(y) {
        left(a, b, r, x, y);
        lift_real(a, b, r, x, q);
        lift_apart(a, b, r, x, ad, s, bd, f, c, blank, z, q);
    } else {
        lift_real(a, b, r, x, y);
        assert(ad.has(f(y))) by { reveal(sim_but); }
        assert(y != x);
        assert(f(y) != f(x)) by { reveal(sim_but); let u = (f(y), f(x)); }
        assert(bd.par(f(y)) == ad.par(f(y)));
        if !a.has(z) { left(a, b, r, x, z); assert(ad.has(ad.par(f(y))->0)); }
        else { lift_real(a, b, r, x, z); reveal(sim_but); let u = (f(y), f(z)); }
    }
}
proof fn lift_slots<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool)
    requires lift_pre(a, b, r, x, ad, s, bd, f, c, blank)
    ensures slot_twin(b, r, s, lifted_map(a, b, bd, f, x)), b.kids(r) == a.kids(r)
{
    let g = lifted_map(a, b, bd, f, x);
    lift_doc(a, b, r, x, ad, s, bd, f, c, blank);
    assert(slot_twin(a, r, s, f)) by { reveal(sim_but); }
    let q = a.par(x)->0;
    assert(q != r);
    assert(b.kids(r) == a.kids(r));
    assert forall|k: int| #![trigger b.kids(r)[k]] 0 <= k < b.kids(r).len() && b.kids(b.kids(r)[k]).len() > 0 implies
        s.contains_key(k as u32) && s[k as u32] == g(b.kids(b.kids(r)[k])[0]) by {
        let y = a.kids(r)[k];
        assert(a.has(y) && a.par(y) == Some(r));
        assert(a.kids(y).len() <= 1);
        if y == q {
            assert(slot_top(a, r, x));
            assert(a.kids(q).contains(x));
            let i = a.kids(q).index_of(x);
            assert(0 <= i < a.kids(q).len() && a.kids(q)[i] == x);
            assert(without(a.kids(q), x) == a.kids(q).remove(i));
            assert(b.kids(q).len() == 0);
        }
        assert(b.kids(y) == a.kids(y));
        assert(a.has(a.kids(y)[0]));
    }
}
/// After the same node was taken away on both sides, the sides still agree.
pub proof fn lift_step<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool) -> (g: F)
    requires lift_pre(a, b, r, x, ad, s, bd, f, c, blank)
    ensures sim_but(b, r, bd, s, g, c, Some(x)), c(x) || twin(b, bd, g, x), bd.has(g(x)), extends(a, b, r, bd, f, g), b.par(x) is None, bd.par(g(x)) is None, real(b, r, x), b.kids(r) == a.kids(r), g(x) == f(x), g == lifted_map(a, b, bd, f, x)
{
    let g = lifted_map(a, b, bd, f, x);
    lift_doc(a, b, r, x, ad, s, bd, f, c, blank);
    lift_real(a, b, r, x, x);
    assert forall|y: NodeId| #![trigger g(y)] real(b, r, y) && !a.has(y) implies empty_text(bd.data(g(y))) by { left(a, b, r, x, y); }
    assert forall|y: NodeId| #![trigger g(y)] live(b, r, Some(x), y) implies bd.has(g(y)) by {
        if a.has(y) { lift_real(a, b, r, x, y); assert(ad.has(f(y))) by { reveal(sim_but); } } else { left(a, b, r, x, y); }
    }
    assert forall|y: NodeId, z: NodeId| #![trigger g(y), g(z)] live(b, r, Some(x), y) && live(b, r, Some(x), z) && g(y) == g(z) implies y == z by { lift_apart(a, b, r, x, ad, s, bd, f, c, blank, y, z); }
    assert forall|y: NodeId| #![trigger g(y)] live(b, r, Some(x), y) && !c(y) implies twin(b, bd, g, y) by { lift_twin(a, b, r, x, ad, s, bd, f, c, blank, y); }
    assert forall|y: NodeId, z: NodeId| #![trigger g(y), g(z)] y != x && live(b, r, Some(x), y) && live(b, r, Some(x), z) && !c(z) && bd.par(g(y)) == Some(g(z)) implies b.par(y) == Some(z) by { lift_up(a, b, r, x, ad, s, bd, f, c, blank, y, z); }
    lift_slots(a, b, r, x, ad, s, bd, f, c, blank);
    assert forall|y: NodeId| #![trigger c(y)] c(y) implies real(b, r, y) && b.kids(y).len() == 0 by {
        assert(a.kids(y).len() == 0 && real(a, r, y)) by { reveal(sim_but); }
        lift_real(a, b, r, x, y);
        if a.par(x) == Some(y) { assert(a.kids(y).contains(x)); }
        assert(b.kids(y) == a.kids(y));
    }
    reveal(sim_but);
    g
}

// ---- one operation
/// What was on its way is left out.
pub proof fn drop_n<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, n: NodeId)
    requires sim_but(m, r, d, s, f, c, Some(n)), m.par(n) is None
    ensures sim(m, r, d, s, f, c)
{
    reveal(sim_but);
    assert forall|x: NodeId| live(m, r, None, x) implies live(m, r, Some(n), x) && x != n by {}
    assert forall|x: NodeId| #![trigger f(x)] live(m, r, None, x) implies d.has(f(x)) && (c(x) || twin(m, d, f, x)) by { let y = f(x); assert(live(m, r, Some(n), x)); }
    assert forall|x: NodeId, y: NodeId| #![trigger f(x), f(y)] live(m, r, None, x) && live(m, r, None, y) implies (f(x) == f(y) ==> x == y) && (!c(y) && d.par(f(x)) == Some(f(y)) ==> m.par(x) == Some(y)) by {
        let u = (f(x), f(y)); assert(live(m, r, Some(n), x) && live(m, r, Some(n), y));
    }
}
/// Only what a node says changed.
pub proof fn told_step<'a, 'b>(m: ShM<'a>, r: NodeId, d: DocM<'b>, e: DocM<'b>, s: Slots, f: F, c: Cs, x: NodeId)
    requires sim(m, r, d, s, f, c), ap::told(d, e, x)
    ensures sim(m, r, e, s, f, c), still_framed(r, m, d, f, m, e, f, None)
{
    assert forall|d0: DocM<'b>, x0: NodeId, ra: NodeId| #[trigger] framed(m, r, d, f, None, d0, x0, ra) implies framed(m, r, e, f, None, d0, x0, ra) by { told_frame(m, r, d, e, f, x, d0, x0, ra); }
    reveal(sim_but);
    assert forall|y: NodeId| #![trigger f(y)] live(m, r, None, y) implies e.has(f(y)) && (c(y) || twin(m, e, f, y)) by { let z = f(y); if !c(y) { assert(twin(m, d, f, y)); } }
    assert forall|x: NodeId, y: NodeId| #![trigger f(x), f(y)] live(m, r, None, x) && live(m, r, None, y) implies (!c(y) && e.par(f(x)) == Some(f(y)) ==> m.par(x) == Some(y)) by { let u = (f(x), f(y)); }
}
pub open spec fn with(f: F, n: NodeId, y: NodeId) -> F { |x: NodeId| if x == n { y } else { f(x) } }
pub open spec fn also(c: Cs, n: NodeId) -> Cs { |x: NodeId| c(x) || x == n }
pub proof fn made_sim<'a, 'b>(z: ShM<'a>, m: ShM<'a>, r: NodeId, d: DocM<'b>, s: Slots, f: F, c: Cs, n: NodeId, y: NodeId, hide: bool)
    requires slotted(z, r), slotted(m, r), sim(z, r, d, s, f, c), created(z, m, n, m.data(n)), !d.has(y), n != r, trees(d)
    ensures sim_but(m, r, d, s, with(f, n, y), if hide { also(c, n) } else { c }, Some(n)), real(m, r, n)
{
    let g = with(f, n, y);
    let c1 = if hide { also(c, n) } else { c };
    assert(m.kids(r) == z.kids(r));
    assert forall|x: NodeId| #![trigger c1(x)] c1(x) implies real(m, r, x) && m.kids(x).len() == 0 by { if c(x) { reveal(sim_but); } }
    assert forall|x: NodeId| x != n implies live(m, r, Some(n), x) == live(z, r, None, x) by { assert(m.par(x) == z.par(x)); }
    assert forall|x: NodeId| #![trigger g(x)] live(m, r, Some(n), x) && x != n implies d.has(g(x)) && (c1(x) || twin(m, d, g, x)) by {
        assert(live(z, r, None, x));
        assert(d.has(f(x)) && (c(x) || twin(z, d, f, x))) by { reveal(sim_but); }
        if !c(x) {
            assert(m.kids(x) == z.kids(x));
            assert forall|i: int| #![trigger m.kids(x)[i]] #![trigger d.kids(g(x))[i]] 0 <= i < m.kids(x).len() implies d.kids(g(x))[i] == g(m.kids(x)[i]) by { assert(z.has(z.kids(x)[i])); assert(d.kids(f(x))[i] == f(z.kids(x)[i])); }
        }
    }
    assert forall|x: NodeId, w: NodeId| #![trigger g(x), g(w)] live(m, r, Some(n), x) && live(m, r, Some(n), w) && g(x) == g(w) implies x == w by { reveal(sim_but); if x != n && w != n { let u = (f(x), f(w)); } else if x != n { let u = f(x); } else if w != n { let u = f(w); } }
    assert forall|x: NodeId, w: NodeId| #![trigger g(x), g(w)] live(m, r, Some(n), x) && live(m, r, Some(n), w) && x != n && !c1(w) && d.par(g(x)) == Some(g(w)) implies m.par(x) == Some(w) by {
        reveal(sim_but); let u = (f(x), f(w));
        assert(d.has(f(x)));
        if w == n { assert(false) by { assert(d.par(f(x)) == Some(y)); assert(trees(d)); } }
    }
    assert(slot_twin(m, r, s, g)) by {
        reveal(sim_but);
        assert forall|k: int| #![trigger m.kids(r)[k]] 0 <= k < m.kids(r).len() && m.kids(m.kids(r)[k]).len() > 0 implies s.contains_key(k as u32) && s[k as u32] == g(m.kids(m.kids(r)[k])[0]) by {
            let t = z.kids(r)[k];
            assert(z.has(t) && t != n);
            assert(m.kids(t) == z.kids(t));
            assert(z.has(z.kids(t)[0]));
        }
    }
    reveal(sim_but);
}

pub open spec fn below_no(c: ContentV) -> bool { ap::below(c).len() == 0 }
/// A node was made and put in its place.
pub proof fn ins_step<'a, 'b>(z: ShM<'a>, m: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, d: DocM<'b>, s: Slots, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs, path: Seq<u32>, x: ContentV, hide: bool) -> (g: F)
    requires slotted(z, r), slotted(m, r), slotted(b, r), trees(d), ok ==> trees(e), sim(z, r, d, s, f, c), created(z, m, n, m.data(n)), n != r, sput(m, b, r, p, pos, n, slot),
        0 <= pos, path.len() > 0, path.last() == pos, lead(z, r, path.drop_last()) == Some(p), !c(p), z.kids(r).len() < u32::MAX,
        ap::put_new(d, s, path, x, slot, e, t, ok), hide || below_no(x)
    ensures ok, sim(b, r, e, t, g, if hide { also(c, n) } else { c }),
        forall|y: NodeId| #![trigger g(y)] z.has(y) ==> g(y) == f(y),
        ap::built(d, e, g(n), x), b.kids(p).len() > pos, b.kids(p)[pos] == n,
        forall|y: NodeId| #![trigger g(y)] real(b, r, y) && !z.has(y) && y != n ==> empty_text(e.data(g(y))),
        still_framed(r, z, d, f, b, e, g, None),
{
    place_sim(z, r, d, s, f, c, path, p);
    nav_sim(z, r, d, s, f, c, path.drop_last());
    assert(live(z, r, None, p));
    let y = choose|y: NodeId| #[trigger] ap::built(d, e, y, x) && ap::put(d, s, e, t, (f(p), pos), y, slot);
    assert(!d.has(y) && e.has(y)) by { reveal_with_fuel(ap::built, 1); }
    made_sim(z, m, r, d, s, f, c, n, y, hide);
    let g0 = with(f, n, y);
    let c1 = if hide { also(c, n) } else { c };
    assert(m.kids(r) == z.kids(r));
    assert(live(m, r, None, p) && p != n) by { assert(m.par(p) == z.par(p)); }
    assert(b.kids(n).len() == 0) by { assert(b.kids(n) == m.kids(n)); }
    assert(c1(n) || twin(b, e, g0, n)) by { if !hide { assert(e.kids(y).len() == 0) by { reveal_with_fuel(ap::built, 1); } } }
    let g = put_step(m, b, r, p, pos, n, slot, d, s, e, t, g0, c1);
    assert forall|d0: DocM<'b>, x0: NodeId, ra: NodeId| #[trigger] framed(z, r, d, f, None, d0, x0, ra) implies framed(b, r, e, g, None, d0, x0, ra) by {
        made_frame(z, m, r, d, s, f, c, n, y, d0, x0, ra);
        put_frame(m, b, r, p, pos, n, slot, d, s, e, t, g0, c1, d0, x0, ra);
    }
    assert forall|w: NodeId| #![trigger g(w)] z.has(w) implies g(w) == f(w) by { assert(m.has(w) && w != n); }
    assert(g(n) == y) by { assert(m.has(n)); }
    g
}
pub proof fn up_up<'a>(z: ShM<'a>, r: NodeId, x: NodeId)
    requires slotted(z, r), real(z, r, x), above(z, r, x)
    ensures z.par(x) is Some, z.par(z.par(x)->0) is Some
{ above_up(z, r, x); above_up(z, r, z.par(x)->0); }
/// A node went from its place to another.
pub proof fn mov_step<'a, 'b>(z: ShM<'a>, m: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, x: NodeId, slot: Option<u32>, d: DocM<'b>, s: Slots, e: DocM<'b>, t: Slots, ok: bool, f: F, c: Cs, from: Seq<u32>, to: Seq<u32>) -> (g: F)
    requires slotted(z, r), slotted(m, r), slotted(b, r), trees(d), ok ==> trees(e), sim(z, r, d, s, f, c), slift(z, m, r, x), sput(m, b, r, p, pos, x, slot),
        0 <= pos, to.len() > 0, to.last() == pos, lead(m, r, to.drop_last()) == Some(p), lead(z, r, from) == Some(x), real(z, r, x), above(z, r, x), !c(p), z.kids(r).len() < u32::MAX, p != x, z.has(p),
        ap::moved(d, s, from, to, slot, e, t, ok)
    ensures ok, sim(b, r, e, t, g, c),
        forall|y: NodeId| #![trigger g(y)] z.has(y) ==> g(y) == f(y),
        forall|y: NodeId| #![trigger g(y)] real(b, r, y) && !z.has(y) ==> empty_text(e.data(g(y))),
        still_framed(r, z, d, f, b, e, g, Some(x)),
{
    nav_sim(z, r, d, s, f, c, from);
    up_up(z, r, x);
    let w = choose|w: DocM<'b>| #[trigger] ap::lifted(d, w, f(x), deep(from)) && trees(w) && match place(w, s, to) {
        Some(y) => ok && ap::put(w, s, e, t, y, f(x), slot),
        None => !ok && e == w && t == s,
    };
    let h = lift_step(z, m, r, x, d, s, w, f, c, deep(from));
    drop_n(m, r, w, s, h, c, x);
    nav_sim(m, r, w, s, h, c, to.drop_last());
    place_sim(m, r, w, s, h, c, to, p);
    assert(h(x) == f(x));
    assert(c(x) || twin(b, e, h, x)) by {
        if !c(x) {
            assert(twin(m, w, h, x));
            assert(w.has(h(x)));
            assert(m.has(x));
            assert(b.kids(x) == m.kids(x));
            assert(h(p) != h(x)) by { reveal(sim_but); let u = (h(p), h(x)); assert(live(m, r, Some(x), p) && live(m, r, Some(x), x)); }
            assert(e.kids(h(x)) == w.kids(h(x)));
        }
    }
    assert(e.has(h(x))) by { assert(w.has(h(x))); }
    let g = put_step(m, b, r, p, pos, x, slot, w, s, e, t, h, c);
    assert forall|d0: DocM<'b>, x0: NodeId, ra: NodeId| #[trigger] framed(z, r, d, f, None, d0, x0, ra) && x != ra implies framed(b, r, e, g, None, d0, x0, ra) by {
        lift_frame(z, m, r, x, d, s, w, f, c, deep(from), d0, x0, ra);
        put_frame(m, b, r, p, pos, x, slot, w, s, e, t, h, c, d0, x0, ra);
    }
    assert forall|y: NodeId| #![trigger g(y)] z.has(y) implies g(y) == f(y) by { assert(m.has(y)); assert(h(y) == f(y)); }
    assert forall|y: NodeId| #![trigger g(y)] real(b, r, y) && !z.has(y) implies empty_text(e.data(g(y))) by {
        if m.has(y) {
            left(z, m, r, x, y);
            assert(real(m, r, y));
            assert(empty_text(w.data(h(y))));
            assert(w.has(h(y))) by { reveal(sim_but); assert(live(m, r, Some(x), y)); }
            assert(e.data(h(y)) == w.data(h(y)));
        }
    }
    g
}
/// A displaced node was removed: the document leaves it alone, as it hangs nowhere.
pub proof fn park_step<'a, 'b>(z: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, d: DocM<'b>, s: Slots, e: DocM<'b>, f: F, c: Cs) -> (g: F)
    requires slotted(z, r), slotted(b, r), trees(d), trees(e), sim(z, r, d, s, f, c), real(z, r, x), slot_top(z, r, x), blanked(z, b, x), ap::lifted(d, e, f(x), true)
    ensures ({ let h = b.kids(z.par(x)->0)[0];
        &&& sim(b, r, e, s, g, also(c, h)) && g == with(f, h, f(x)) && !z.has(h)
        &&& forall|y: NodeId| #![trigger z.has(y)] b.has(y) ==> z.has(y) || y == h }),
        still_framed(r, z, d, f, b, e, g, Some(x)),
{
    assert forall|d0: DocM<'b>, x0: NodeId, ra: NodeId| #[trigger] framed(z, r, d, f, None, d0, x0, ra) && x != ra implies framed(b, r, e, with(f, b.kids(z.par(x)->0)[0], f(x)), None, d0, x0, ra) by { park_frame(z, b, r, x, d, s, e, f, c, d0, x0, ra); }
    let q = z.par(x)->0;
    assert(z.has(q) && z.kids(q).contains(x));
    let i = z.kids(q).index_of(x);
    assert(0 <= i < z.kids(q).len() && z.kids(q)[i] == x);
    let k = place_in(z, r, q);
    assert(z.kids(q).len() == 1 && i == 0);
    let h = b.kids(q)[0];
    let g = with(f, h, f(x));
    let c1 = also(c, h);
    assert(live(z, r, None, x));
    assert(q != r);
    assert(b.kids(r) == z.kids(r));
    assert forall|y: NodeId| #![trigger c1(y)] c1(y) implies real(b, r, y) && b.kids(y).len() == 0 by {
        if y != h { assert(real(z, r, y) && z.kids(y).len() == 0) by { reveal(sim_but); } assert(b.kids(y) == z.kids(y)); let w = b.par(y); assert(b.has(y)); }
    }
    assert forall|y: NodeId| live(b, r, None, y) implies (y == h || (live(z, r, None, y) && y != x && b.par(y) == z.par(y))) by { let w = b.par(y); assert(b.has(y)); if y != h { assert(z.has(y)); } }
    assert(e.has(f(x)) && e.par(f(x)) is None && d.has(f(x))) by { reveal(sim_but); let u = f(x); assert(d.has(f(x))); }
    assert forall|y: NodeId| #![trigger g(y)] live(b, r, None, y) implies e.has(g(y)) && (c1(y) || twin(b, e, g, y)) by {
        if y != h {
            assert(live(z, r, None, y));
            assert(d.has(f(y)) && (c(y) || twin(z, d, f, y))) by { reveal(sim_but); }
            if !c(y) {
                assert(b.kids(y) == z.kids(y));
                assert(d.par(f(x)) != Some(f(y))) by { reveal(sim_but); let u = (f(x), f(y)); }
                assert(e.kids(f(y)) == d.kids(f(y)));
                assert forall|i: int| #![trigger b.kids(y)[i]] #![trigger e.kids(g(y))[i]] 0 <= i < b.kids(y).len() implies e.kids(g(y))[i] == g(b.kids(y)[i]) by { assert(z.has(z.kids(y)[i])); assert(d.kids(f(y))[i] == f(z.kids(y)[i])); }
            }
        }
    }
    assert forall|y: NodeId, w: NodeId| #![trigger g(y), g(w)] live(b, r, None, y) && live(b, r, None, w) && g(y) == g(w) implies y == w by {
        reveal(sim_but); let u = (f(y), f(w)); let v = (f(y), f(x)); let v2 = (f(x), f(w));
    }
    assert forall|y: NodeId, w: NodeId| #![trigger g(y), g(w)] live(b, r, None, y) && live(b, r, None, w) && !c1(w) && e.par(g(y)) == Some(g(w)) implies b.par(y) == Some(w) by {
        assert(y != h);
        assert(d.has(f(y)) && z.par(y) == b.par(y)) by { reveal(sim_but); let u = f(y); assert(live(z, r, None, y)); }
        assert(f(y) != f(x)) by { reveal(sim_but); let u = (f(y), f(x)); assert(live(z, r, None, y)); }
        assert(e.par(f(y)) == d.par(f(y)));
        reveal(sim_but); let u = (f(y), f(w));
    }
    assert(slot_twin(b, r, s, g)) by {
        assert(slot_twin(z, r, s, f)) by { reveal(sim_but); }
        assert forall|k: int| #![trigger b.kids(r)[k]] 0 <= k < b.kids(r).len() && b.kids(b.kids(r)[k]).len() > 0 implies s.contains_key(k as u32) && s[k as u32] == g(b.kids(b.kids(r)[k])[0]) by {
            let t = z.kids(r)[k];
            assert(z.has(t) && z.par(t) == Some(r));
            if t != q { assert(b.kids(t) == z.kids(t)); assert(z.has(z.kids(t)[0])); }
        }
    }
    reveal(sim_but);
    g
}
pub proof fn place_in<'a>(m: ShM<'a>, r: NodeId, q: NodeId) -> (k: int)
    requires slotted(m, r), m.has(q), m.par(q) == Some(r)
    ensures 0 <= k < m.kids(r).len(), m.kids(r)[k] == q, m.kids(q).len() <= 1
{
    assert(m.kids(r).contains(q));
    let k = m.kids(r).index_of(q);
    assert(0 <= k < m.kids(r).len() && m.kids(r)[k] == q);
    k
}

// ---- what the nodes say
pub open spec fn node_says(d: NodeData<'_>, kind: HtmlNodeKind, attrs: Seq<AttrV>, text: Seq<char>) -> bool {
    match kind {
        HtmlNodeKind::Element(tag, ns) => d.kind is Element && d.kind->Element_0.tag == tag && ap::pairs_v(d.kind->Element_0.attrs@) == attrs,
        HtmlNodeKind::Text => d.kind is Text && d.kind->Text_0@ == text,
        HtmlNodeKind::Comment => d.kind is Comment && d.kind->Comment_0@ == text,
    }
}
/// No name twice.
pub open spec fn one_each(l: Seq<AttrV>) -> bool { forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> l[i].0 != l[j].0 }
/// What H04 proves of the property change computed for an element.
pub open spec fn props_ok<'a>(p: &HtmlProps<'a>, q: &HtmlProps<'a>) -> bool {
    let r = p.s_diff(q);
    let o = pairs_v(p.attrs@);
    let n = pairs_v(q.attrs@);
    &&& r.len() == n.len()
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() ==> r[i].key == PropKey::Attr(n[i].0)
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i].value is Same ==> o.contains(n[i])
    &&& forall|i: int| #![trigger r[i]] 0 <= i < r.len() && r[i].value is Different ==> r[i].value->Different_0@ == n[i].1
    &&& one_each(o) && one_each(n) && o != n ==> r.len() < o.len() || exists|i: int| 0 <= i < r.len() && !((#[trigger] r[i]).value is Same)
}
pub proof fn one_val(o: Seq<AttrV>, i: int)
    requires one_each(o), 0 <= i < o.len()
    ensures ap::attr_val(o, o[i].0) == o[i].1
    decreases o.len()
{
    if i > 0 {
        let t = o.skip(1);
        assert(one_each(t));
        assert(o[0].0 != o[i].0);
        one_val(t, i - 1);
        assert(t[i - 1] == o[i]);
    }
}
/// Following the computed change gives the new attributes.
pub proof fn props_done<'a>(p: &HtmlProps<'a>, q: &HtmlProps<'a>, k: int)
    requires props_ok(p, q), one_each(pairs_v(p.attrs@)), 0 <= k <= p.s_diff(q).len()
    ensures ap::rebuilt(pairs_v(p.attrs@), changes_of(p.s_diff(q)).take(k)) == pairs_v(q.attrs@).take(k)
    decreases k
{
    let r = p.s_diff(q);
    let o = pairs_v(p.attrs@);
    let n = pairs_v(q.attrs@);
    let ch = changes_of(r).take(k);
    if k > 0 {
        props_done(p, q, k - 1);
        assert(ch.drop_last() =~= changes_of(r).take(k - 1));
        assert(ch.last() == change_of(r[k - 1]));
        assert(r[k - 1].key == PropKey::Attr(n[k - 1].0));
        if r[k - 1].value is Same {
            assert(o.contains(n[k - 1]));
            let i = choose|i: int| 0 <= i < o.len() && o[i] == n[k - 1];
            one_val(o, i);
        }
        assert(n.take(k) =~= n.take(k - 1).push(n[k - 1]));
        assert(ap::rebuilt(o, ch) =~= n.take(k));
    } else { assert(ap::rebuilt(o, ch) =~= n.take(0)); }
}
pub proof fn no_text<'a>(p: &HtmlProps<'a>, q: &HtmlProps<'a>, k: int)
    requires props_ok(p, q), 0 <= k <= p.s_diff(q).len()
    ensures ap::new_text(changes_of(p.s_diff(q)).skip(k)) is None
    decreases p.s_diff(q).len() - k
{
    let r = p.s_diff(q);
    let ch = changes_of(r).skip(k);
    if k < r.len() {
        no_text(p, q, k + 1);
        assert(ch[0] == change_of(r[k]));
        assert(r[k].key == PropKey::Attr(pairs_v(q.attrs@)[k].0));
        assert(ch.skip(1) =~= changes_of(r).skip(k + 1));
    }
}
pub proof fn two_pairs(l: Seq<(QualName, Stem<'_>)>)
    ensures ap::pairs_v(l) == pairs_v(l)
{ assert(ap::pairs_v(l) =~= pairs_v(l)); }
/// An update by the computed change makes the node say the new attributes.
pub proof fn upd_says<'a>(x: NodeData<'_>, y: NodeData<'_>, p: &HtmlProps<'a>, q: &HtmlProps<'a>, kind: HtmlNodeKind, text: Seq<char>)
    requires props_ok(p, q), one_each(pairs_v(p.attrs@)), node_says(x, kind, pairs_v(p.attrs@), text), ap::updated(x, y, changes_of(p.s_diff(q)))
    ensures node_says(y, kind, pairs_v(q.attrs@), text)
{
    let n = p.s_diff(q).len() as int;
    props_done(p, q, n);
    no_text(p, q, 0);
    let ch = changes_of(p.s_diff(q));
    assert(ch.take(n) =~= ch);
    assert(ch.skip(0) =~= ch);
    assert(pairs_v(q.attrs@).take(n) =~= pairs_v(q.attrs@));
}

// ---- vacuity guards: these must fail
#[verifier::rlimit(3)]
proof fn must_fail_put<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c), pos > a.kids(p).len() + 1, !c(n), a.kids(n).len() > 0
{
    let g = put_step(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    reveal(sim_but);
    assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_put_over<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, ad: DocM<'b>, s: Slots, bd: DocM<'b>, t: Slots, f: F, c: Cs)
    requires put_pre(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c), pos < a.kids(p).len(), c(n)
{
    let g = put_step(a, b, r, p, pos, n, slot, ad, s, bd, t, f, c);
    reveal(sim_but);
    assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_lift<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool)
    requires lift_pre(a, b, r, x, ad, s, bd, f, c, blank), !slot_top(a, r, x)
{
    let g = lift_step(a, b, r, x, ad, s, bd, f, c, blank);
    reveal(sim_but);
    assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_lift_top<'a, 'b>(a: ShM<'a>, b: ShM<'a>, r: NodeId, x: NodeId, ad: DocM<'b>, s: Slots, bd: DocM<'b>, f: F, c: Cs, blank: bool)
    requires lift_pre(a, b, r, x, ad, s, bd, f, c, blank), slot_top(a, r, x)
{
    let g = lift_step(a, b, r, x, ad, s, bd, f, c, blank);
    reveal(sim_but);
    assert(false);
}

} // verus!
}
