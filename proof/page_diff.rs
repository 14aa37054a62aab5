// From two documents to the list of patches.
pub mod page_diff {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe_spec::*;
use crate::chawathe::generate_edit_script;
use crate::matching_spec::{faithful, st, st_op, st_kind, same_kind};
use crate::tree_spec::up;
use crate::forest_mut::above;
use crate::shadow::{real, ShM};
use crate::matching::{MatchingConfig, compute_matching};
use crate::forest::*;
use crate::forest_laws::*;
use crate::forest_walk::*;
use crate::page_content::*;
use crate::html_types::*;
use crate::html_dom::*;
use crate::html_props::*;
use crate::html_props::NodeData;
use crate::html_dom::{Document, is_named, first_named};
use crate::html_ser::inner_ok;
use crate::shadow_steps::{ready, going, mate, mates, st_name, Job, Sh};
use crate::shadow_plan::{late, hangs_b};
use crate::html_patch::*;
use crate::shadow::*;
use crate::shadow_trees::*;
use crate::shadow_convert::*;
use crate::doc_view::{Forest, page_node, page_f, page, plain, page_ok, DiffableDocument};
use crate::doc_build::*;
use crate::page_insert::*;
verus! {

// ---- the two pages
pub open spec fn the_body(d: &Document<'_>, b: NodeId) -> bool { first_named(d.m(), d.root, b, "body"@) }
pub open spec fn no_body(d: &Document<'_>) -> bool { forall|i: int| 0 <= i < d.m().kids(d.root).len() ==> !is_named(d.m(), #[trigger] d.m().kids(d.root)[i], "body"@) }
/// What is found by going down from `p`.
pub open spec fn at(p: PageV, path: Seq<int>) -> Option<PageV>
    decreases path.len()
{
    if path.len() == 0 { Some(p) } else {
        match at(p, path.drop_last()) {
            Some(v) => if 0 <= path.last() < v.kids.len() { Some(v.kids[path.last()]) } else { None },
            None => None,
        }
    }
}
pub open spec fn fed(p: PageV) -> Seq<Fed> { crate::page_content::own(p.node) + digs(p, p.kids.len()) }
/// No other node of the page is of the kind of its root.
pub open spec fn lone(p: PageV) -> bool {
    forall|path: Seq<int>| path.len() > 0 && #[trigger] at(p, path) is Some ==> at(p, path)->0.node.kind != p.node.kind
}
/// No two nodes of the two pages have the same hash by accident.
pub open spec fn no_clash(p: PageV, q: PageV) -> bool {
    forall|x: Seq<int>, y: Seq<int>| (#[trigger] at(p, x)) is Some && (#[trigger] at(q, y)) is Some && dig(at(p, x)->0) == dig(at(q, y)->0) ==> fed(at(p, x)->0) == fed(at(q, y)->0)
}
#[verifier::opaque]
pub open spec fn comparable(p: PageV, q: PageV) -> bool {
    p.node.kind == q.node.kind && lone(p) && lone(q) && no_clash(p, q)
}
pub proof fn path_to<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, r: NodeId, x: NodeId) -> (path: Seq<int>)
    requires trees(m), m.has(x), over(m, r, x)
    ensures at(shown(m, f, r), path) == Some(shown(m, f, x)), x != r ==> path.len() > 0
    decreases m.depth(x)
{
    if x != r {
        let p = m.par(x)->0;
        let s = path_to(m, f, r, p);
        let j = choose|j: int| 0 <= j < m.kids(p).len() && #[trigger] m.kids(p)[j] == x;
        assert(m.kids(p)[j] == x);
        showns_are(m, f, p, m.kids(p).len());
        assert(s.push(j).drop_last() =~= s);
        s.push(j)
    } else { Seq::empty() }
}
proof fn lone_over<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, r: NodeId, x: NodeId)
    requires trees(m), m.has(x), over(m, r, x), x != r, lone(shown(m, f, r))
    ensures f(m.data(x)).kind != f(m.data(r)).kind
{
    let s = path_to(m, f, r, x);
}
proof fn digs_are(p: PageV, n: nat)
    requires n <= p.kids.len()
    ensures digs(p, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] digs(p, n)[i] == Fed::Num(dig(p.kids[i]))
    decreases n
{
    if n > 0 { digs_are(p, (n - 1) as nat); }
}
/// Pages with the same fed sequence: the same kind, and children with the same hashes.
proof fn fed_same(u: PageV, v: PageV)
    requires fed(u) == fed(v)
    ensures u.node.kind == v.node.kind, u.kids.len() == v.kids.len(), forall|i: int| 0 <= i < u.kids.len() ==> dig(#[trigger] u.kids[i]) == dig(v.kids[i])
{
    digs_are(u, u.kids.len());
    digs_are(v, v.kids.len());
    let (s, t) = (fed(u), fed(v));
    let (a, b) = (crate::page_content::own(u.node), crate::page_content::own(v.node));
    assert(s[0] == a[0] && t[0] == b[0]);
    assert(a.len() == b.len()) by {
        if a.len() == 2 && b.len() == 1 { assert(s[1] == a[1]); if t.len() > 1 { assert(t[1] == digs(v, v.kids.len())[0]); } }
        if a.len() == 1 && b.len() == 2 { assert(t[1] == b[1]); if s.len() > 1 { assert(s[1] == digs(u, u.kids.len())[0]); } }
    }
    assert(u.kids.len() == v.kids.len());
    assert forall|i: int| 0 <= i < u.kids.len() implies dig(#[trigger] u.kids[i]) == dig(v.kids[i]) by {
        assert(s[a.len() + i] == digs(u, u.kids.len())[i]);
        assert(t[b.len() + i] == digs(v, v.kids.len())[i]);
    }
}
/// The old page's tree says what the old page says; the other tree is the new page.
pub open spec fn two_pages<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, p: PageV, q: PageV) -> bool {
    &&& whole(ta.0.arena@, ta.0.root) && hashed(ta.0.arena@) && tree_page(ta.0.arena@, ta.0.root) == p
    &&& tb.ok() && page(tb.m(), tb.body_id) == q
}
proof fn kinds_a<'a>(ta: &OpaqueAwareTree<'a>, x: NodeId)
    requires trees(ta.0.arena@), ta.s_has(x)
    ensures *ta.s_kind(x) == tree_page(ta.0.arena@, x).node.kind
{}
pub proof fn kinds_b<'b, 'a>(tb: &DiffableDocument<'b, 'a>, x: NodeId)
    requires tb.ok(), tb.s_has(x)
    ensures *tb.s_kind(x) == page(tb.m(), x).node.kind
{ reveal(crate::doc_view::covers); assert(tb.nodes@.contains_key(x)); }
proof fn ready_to_match<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, p: PageV, q: PageV)
    requires two_pages(ta, tb, p, q), comparable(p, q)
    ensures crate::matching_spec::trees(ta, tb), faithful(ta, tb), ta.0.arena@.has(ta.0.root), tree_ok(ta), tree_ok(tb),
        *ta.s_kind(ta.s_root()) == *tb.s_kind(tb.s_root()),
        forall|x: NodeId| #[trigger] ta.s_has(x) && x != ta.s_root() ==> *ta.s_kind(x) != *ta.s_kind(ta.s_root()),
        forall|x: NodeId| #[trigger] tb.s_has(x) && x != tb.s_root() ==> *tb.s_kind(x) != *tb.s_kind(tb.s_root()),
{
    hide(shown); hide(dig); hide(digs);
    reveal(comparable);
    reveal(faithful);
    reveal(crate::matching_spec::trees);
    crate::doc_view::html_types_ok();
    wrapped_lawful(ta);
    crate::doc_view::page_tree(tb);
    let ma = ta.0.arena@;
    let mb = tb.m();
    let ra = ta.0.root;
    let rb = tb.body_id;
    kinds_a(ta, ra);
    assert(over(mb, rb, rb));
    kinds_b(tb, rb);
    assert forall|x: NodeId| #[trigger] ta.s_has(x) && x != ta.s_root() implies *ta.s_kind(x) != *ta.s_kind(ta.s_root()) by { lone_over(ma, tree_f(), ra, x); }
    assert forall|x: NodeId| #[trigger] tb.s_has(x) && x != tb.s_root() implies *tb.s_kind(x) != *tb.s_kind(tb.s_root()) by { lone_over(mb, page_f(), rb, x); kinds_b(tb, x); page_kind(mb, x); page_kind(mb, rb); }
    assert forall|a: NodeId, b: NodeId| #![trigger ta.s_hash(a), tb.s_hash(b)] ta.s_has(a) && tb.s_has(b) && ta.s_hash(a) == tb.s_hash(b) implies {
        &&& *ta.s_kind(a) == *tb.s_kind(b)
        &&& ta.s_children(a).len() == tb.s_children(b).len()
        &&& forall|i: int| #![trigger ta.s_children(a)[i]] 0 <= i < ta.s_children(a).len() ==> ta.s_hash(ta.s_children(a)[i]) == tb.s_hash(tb.s_children(b)[i])
    } by {
        let u = tree_page(ma, a);
        let v = page(mb, b);
        let x = path_to(ma, tree_f(), ra, a);
        let y = path_to(mb, page_f(), rb, b);
        assert(ma.data(a).hash.0 == dig(u));
        assert(dig(u) == dig(v));
        fed_same(u, v);
        kinds_a(ta, a);
        kinds_b(tb, b);
        kids_shown(ma, tree_f(), a);
        kids_shown(mb, page_f(), b);
        assert forall|i: int| #![trigger ta.s_children(a)[i]] 0 <= i < ta.s_children(a).len() implies ta.s_hash(ta.s_children(a)[i]) == tb.s_hash(tb.s_children(b)[i]) by {
            let x = ma.kids(a)[i];
            kid_depth(ma, a, i);
            assert(ma.data(x).hash.0 == dig(tree_page(ma, x)));
            assert(u.kids[i] == tree_page(ma, x));
            assert(v.kids[i] == page(mb, mb.kids(b)[i]));
        }
    }
}
proof fn page_kind(m: Forest<'_>, x: NodeId)
    ensures page(m, x).node == page_f()(m.data(x))
{}
proof fn kids_shown<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, x: NodeId)
    requires trees(m), m.has(x)
    ensures shown(m, f, x).kids.len() == m.kids(x).len(), forall|i: int| 0 <= i < m.kids(x).len() ==> shown(m, f, x).kids[i] == shown(m, f, #[trigger] m.kids(x)[i])
{ showns_are(m, f, x, m.kids(x).len()); }

// ---- the roots are partners
/// One-to-one, respecting opaque nodes; the roots are partners.
#[verifier::opaque]
pub open spec fn paired_up<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, m: &Matching) -> bool {
    &&& m_ok(ta, tb, m) && st_op(ta, tb, m)
    &&& forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() ==> *ta.s_kind(m.pairs@[k].0) == *tb.s_kind(m.pairs@[k].1)
    &&& m.s_get_a(tb.s_root()) == Some(ta.s_root())
}
pub proof fn pair_in(m: &Matching, i: int)
    requires m.wf(), 0 <= i < m.pairs@.len()
    ensures m.s_get_b(m.pairs@[i].0) == Some(m.pairs@[i].1), m.s_get_a(m.pairs@[i].1) == Some(m.pairs@[i].0)
{}
proof fn root_pair<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, m: &Matching)
    requires tree_ok(ta), tree_ok(tb), st(ta, tb, m), st_op(ta, tb, m), st_kind(ta, tb, m), faithful(ta, tb), *ta.s_kind(ta.s_root()) == *tb.s_kind(tb.s_root()),
        forall|x: NodeId| #[trigger] ta.s_has(x) && x != ta.s_root() ==> *ta.s_kind(x) != *ta.s_kind(ta.s_root()),
        forall|x: NodeId| #[trigger] tb.s_has(x) && x != tb.s_root() ==> *tb.s_kind(x) != *tb.s_kind(tb.s_root()),
    ensures m.wf(), m.s_contains_a(ta.s_root()) ==> paired_up(ta, tb, m), !m.s_contains_a(ta.s_root()) ==> !m.s_contains_b(tb.s_root())
{
    reveal(st);
    reveal(st_kind);
    reveal(paired_up);
    let ra = ta.s_root();
    let rb = tb.s_root();
    if m.s_contains_a(ra) {
        let b = m.s_get_b(ra)->0;
        lemma_pair_of(ta, tb, m, ra, b);
        let k = choose|k: int| 0 <= k < m.pairs@.len() && m.pairs@[k] == (ra, b);
        assert(same_kind(ta, tb, m.pairs@[k].0, m.pairs@[k].1));
        assert(b == rb);
    } else if m.s_contains_b(rb) {
        let i = rb.ix();
        assert(m.b_to_a@[i] is Some);
        let k = choose|k: int| 0 <= k < m.pairs@.len() && (#[trigger] m.pairs@[k]).1.ix() == i && m.pairs@[k].0 == m.b_to_a@[i]->0;
        assert(m.pairs@[k].1 == rb);
        assert(same_kind(ta, tb, m.pairs@[k].0, m.pairs@[k].1));
        assert(m.pairs@[k].0 == ra);
        pair_in(m, k);
    }
}
proof fn root_added<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, m0: &Matching, m: &Matching)
    requires tree_ok(ta), tree_ok(tb), st(ta, tb, m0), st_op(ta, tb, m0), st_kind(ta, tb, m0), faithful(ta, tb), *ta.s_kind(ta.s_root()) == *tb.s_kind(tb.s_root()), !m0.s_contains_a(ta.s_root()), !m0.s_contains_b(tb.s_root()),
        crate::matching_spec::added(*m0, *m, ta.s_root(), tb.s_root())
    ensures paired_up(ta, tb, m)
{
    reveal(st);
    reveal(st_op);
    reveal(paired_up);
    let ra = ta.s_root();
    let rb = tb.s_root();
    assert forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() implies ta.s_has(m.pairs@[k].0) && tb.s_has(m.pairs@[k].1) && atomic(ta, tb, m, m.pairs@[k].0, m.pairs@[k].1) && *ta.s_kind(m.pairs@[k].0) == *tb.s_kind(m.pairs@[k].1) by {
        if k < m0.pairs@.len() {
            assert(m.pairs@[k] == m0.pairs@[k]);
            assert(same_kind(ta, tb, m0.pairs@[k].0, m0.pairs@[k].1)) by { reveal(st_kind); }
            let (a, b) = m0.pairs@[k];
            assert(atomic(ta, tb, m0, a, b));
            if parents_paired(ta, tb, m0, a, b) { assert(m.s_get_b(ta.s_parent(a)->0) == m0.s_get_b(ta.s_parent(a)->0)); }
        } else {
            lemma_in_op_step(ta, ra);
            lemma_in_op_step(tb, rb);
        }
    }
}

// ---- what is no longer opaque
/// The marks that no longer count: the old nodes whose new partners are not opaque.
pub open spec fn unmarked<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, ps: Seq<(NodeId, NodeId)>) -> bool {
    &&& forall|i: int| 0 <= i < ps.len() && !tb.s_is_opaque((#[trigger] ps[i]).1) ==> ta.1@.contains(ps[i].0)
    &&& forall|x: NodeId| #[trigger] ta.1@.contains(x) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).0 == x && !tb.s_is_opaque(ps[i].1)
}
proof fn unmark<'b, 'a>(t0: &OpaqueAwareTree<'a>, t1: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, ps: Seq<(NodeId, NodeId)>, i: int)
    requires unmarked(t0, tb, ps.take(i)), 0 <= i < ps.len(), t1.1@ == (if tb.s_is_opaque(ps[i].1) { t0.1@ } else { t0.1@.insert(ps[i].0) })
    ensures unmarked(t1, tb, ps.take(i + 1))
{
    let a = ps.take(i);
    let b = ps.take(i + 1);
    assert forall|l: int| 0 <= l < b.len() && !tb.s_is_opaque((#[trigger] b[l]).1) implies t1.1@.contains(b[l].0) by { if l < i { assert(a[l] == b[l]); } }
    assert forall|x: NodeId| #[trigger] t1.1@.contains(x) implies exists|l: int| 0 <= l < b.len() && (#[trigger] b[l]).0 == x && !tb.s_is_opaque(b[l].1) by {
        if t0.1@.contains(x) { let l = choose|l: int| 0 <= l < a.len() && (#[trigger] a[l]).0 == x && !tb.s_is_opaque(a[l].1); assert(b[l] == a[l]); }
        else { assert(b[i].0 == x); }
    }
}
proof fn up_same<'a>(t0: &OpaqueAwareTree<'a>, t1: &OpaqueAwareTree<'a>, y: NodeId, n: nat)
    requires t0.0 == t1.0
    ensures up(t0, y, n) == up(t1, y, n)
    decreases n
{ if n > 0 { up_same(t0, t1, y, (n - 1) as nat); } }
proof fn less_inside<'a>(t0: &OpaqueAwareTree<'a>, t1: &OpaqueAwareTree<'a>, y: NodeId)
    requires t0.0 == t1.0, forall|x: NodeId| t0.1@.contains(x) ==> #[trigger] t1.1@.contains(x)
    ensures in_op(t1, y) ==> in_op(t0, y)
{
    if in_op(t1, y) {
        let o = choose|o: NodeId| #[trigger] t1.s_has(o) && t1.s_is_opaque(o) && o != y && anc(t1, o, y);
        let n = choose|n: nat| #[trigger] up(t1, y, n) == Some(o);
        up_same(t0, t1, y, n);
        assert(t0.s_has(o) && t0.s_is_opaque(o) && anc(t0, o, y));
    }
}
proof fn still_paired<'b, 'a>(t0: &OpaqueAwareTree<'a>, t1: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, m: &Matching)
    requires paired_up(t0, tb, m), t0.0 == t1.0, t0.1@ == Set::<NodeId>::empty(), t0.inv()
    ensures paired_up(t1, tb, m), tree_ok(t1), m_ok(t1, tb, m), crate::chawathe::hung(t1, tb, m)
{
    reveal(paired_up);
    reveal(st_op);
    crate::doc_view::html_types_ok();
    wrapped_lawful(t1);
    assert forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() implies atomic(t1, tb, m, m.pairs@[k].0, m.pairs@[k].1) by {
        let (a, b) = m.pairs@[k];
        assert(atomic(t0, tb, m, a, b));
        less_inside(t0, t1, a);
    }
    assert forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() implies t1.s_has(m.pairs@[k].0) && tb.s_has(m.pairs@[k].1) by { assert(t0.s_has(m.pairs@[k].0)); }
}
proof fn all_ready<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, m: &Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>)
    requires paired_up(ta, tb, m), unmarked(ta, tb, m.pairs@), tree_ok(ta), tree_ok(tb), script_all(ta, tb, m, ops)
    ensures prepared(ta.0, *tb, *m, ops)
{
    reveal(ready);
    reveal(paired_up);
    reveal(st_op);
    let j = job(ta.0, ta.1, *tb, *m, ops, arbitrary());
    assert(j.ta == *ta);
    assert forall|k: int| #![trigger m.pairs@[k]] 0 <= k < m.pairs@.len() implies crate::shadow_steps::partners(&j.ta, &j.tb, m.pairs@[k].0, m.pairs@[k].1) by { let e = m.pairs@[k]; }
    assert(ready(j));
}

// ---- what is said about opaque nodes
/// The new partner is an opaque node (of the outermost ones), and its content is not the old one's, or the old one was not opaque.
pub open spec fn due<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, e: (NodeId, NodeId)) -> bool {
    tb.s_is_opaque(e.1) && !in_op(tb, e.1) && !(ta.s_is_opaque(e.0) && same_below(ta, e.0, tb, e.1))
}
pub open spec fn dues<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, ps: Seq<(NodeId, NodeId)>, n: int) -> Seq<(NodeId, NodeId)>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let s = dues(ta, tb, ps, n - 1);
        if due(ta, tb, ps[n - 1]) { s.push(ps[n - 1]) } else { s }
    }
}
/// For each due pair, in order: the old node, and the new content as HTML.
#[verifier::opaque]
pub open spec fn noted<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, ps: Seq<(NodeId, NodeId)>, n: int, s: Seq<(NodeId, Stem<'a>)>) -> bool {
    let d = dues(ta, tb, ps, n);
    &&& s.len() == d.len()
    &&& forall|i: int| #![trigger s[i]] #![trigger d[i]] 0 <= i < s.len() ==> s[i].0 == d[i].0 && inner_ok(tb.m(), d[i].1, s[i].1@)
}
proof fn note_none<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, ps: Seq<(NodeId, NodeId)>, s: Seq<(NodeId, Stem<'a>)>)
    requires s.len() == 0
    ensures noted(ta, tb, ps, 0, s)
{ reveal(noted); }
proof fn note<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, ps: Seq<(NodeId, NodeId)>, i: int, s: Seq<(NodeId, Stem<'a>)>, x: Stem<'a>)
    requires noted(ta, tb, ps, i, s), 0 <= i < ps.len()
    ensures !due(ta, tb, ps[i]) ==> noted(ta, tb, ps, i + 1, s),
        due(ta, tb, ps[i]) && inner_ok(tb.m(), ps[i].1, x@) ==> noted(ta, tb, ps, i + 1, s.push((ps[i].0, x))),
{
    reveal(noted);
    let d = dues(ta, tb, ps, i);
    assert(dues(ta, tb, ps, i + 1) == (if due(ta, tb, ps[i]) { d.push(ps[i]) } else { d }));
}
pub proof fn dues_in<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, ps: Seq<(NodeId, NodeId)>, n: int, i: int)
    requires 0 <= n <= ps.len(), 0 <= i < dues(ta, tb, ps, n).len()
    ensures ps.contains(dues(ta, tb, ps, n)[i]), due(ta, tb, dues(ta, tb, ps, n)[i])
    decreases n
{
    if n > 0 && i < dues(ta, tb, ps, n - 1).len() { dues_in(ta, tb, ps, n - 1, i); }
}
/// On the way up from `b`: whether `b` is inside an opaque node, once what is above `up` is known.
pub open spec fn climbed<'b, 'a>(tb: &DiffableDocument<'b, 'a>, b: NodeId, up: Option<NodeId>, inside: bool) -> bool {
    match up {
        None => in_op(tb, b) == inside,
        Some(p) => tb.m().has(p) && in_op(tb, b) == (inside || (tb.s_has(p) && (tb.s_is_opaque(p) || in_op(tb, p)))),
    }
}
pub open spec fn left<'b, 'a>(tb: &DiffableDocument<'b, 'a>, up: Option<NodeId>) -> nat { match up { None => 0, Some(p) => tb.m().depth(p) + 1 } }
proof fn climb<'b, 'a>(tb: &DiffableDocument<'b, 'a>, b: NodeId, p: NodeId, inside: bool)
    requires tb.ok(), tree_ok(tb), climbed(tb, b, Some(p), inside)
    ensures climbed(tb, b, tb.m().par(p), inside || (tb.s_has(p) && tb.s_is_opaque(p))), left(tb, tb.m().par(p)) < left(tb, Some(p))
{
    let m = tb.m();
    if tb.s_has(p) {
        lemma_in_op_step(tb, p);
        if p == tb.body_id { if m.par(p) is Some { crate::doc_view::around(m, p, p); } }
        else { assert(over(m, tb.body_id, m.par(p)->0)); over_ix(m, tb.body_id, p); }
    } else { crate::doc_view::around(m, tb.body_id, p); }
    if m.par(p) is Some { crate::doc_view::around(m, tb.body_id, p); }
}
proof fn climb_start<'b, 'a>(tb: &DiffableDocument<'b, 'a>, b: NodeId)
    requires tb.ok(), tree_ok(tb), tb.s_has(b)
    ensures climbed(tb, b, tb.m().par(b), false)
{
    lemma_in_op_step(tb, b);
    crate::doc_view::around(tb.m(), tb.body_id, b);
}
/// The copy at the end still has the node.
proof fn finds<'b, 'a>(ta: Tree<HtmlTreeTypes<'a>>, tb: DiffableDocument<'b, 'a>, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, ps: Seq<Patch<'a>>, s: ShadowTree<'a>, e: (NodeId, NodeId))
    requires as_planned(ta, tb, mt, ops, ps, s), mt.pairs@.contains(e)
    ensures real(s.m(), s.super_root, e.0), above(s.m(), s.super_root, e.0)
{
    let (hs, st, shs) = choose|hs: HashSet<NodeId>, st: Seq<ShM<'a>>, shs: Seq<Sh>| #[trigger] told(job(ta, hs, tb, mt, ops, s.super_root), ops.len() as int, ps, st, shs) && ready(job(ta, hs, tb, mt, ops, s.super_root)) && st.last() == s.m();
    let j = job(ta, hs, tb, mt, ops, s.super_root);
    let n = ops.len() as int;
    told_last(j, n, ps, st, shs);
    let i = choose|i: int| 0 <= i < mt.pairs@.len() && mt.pairs@[i] == e;
    assert(j.tb.s_has(e.1) && j.mt.wf()) by { reveal(ready); assert(j.mt.pairs@[i] == e); }
    pair_in(&mt, i);
    assert(mate(j, e.1) == Some(e.0));
    assert(shs.last().contains_key(e.1) && shs.last()[e.1] == e.0 && real(s.m(), j.r, e.0)) by { reveal(going); reveal(st_name); let x = shs.last()[e.1]; }
    hangs_b(j, n, s.m(), shs.last(), e.1);
}
/// The pos-th patch replaces the content of that node.
pub open spec fn replaces<'b, 'a>(tb: &DiffableDocument<'b, 'a>, s: ShadowTree<'a>, e: (NodeId, NodeId), p: PatchV) -> bool {
    match p {
        PatchV::OpaqueChanged { path, content } => lead(s.m(), s.super_root, path.0@) == Some(e.0) && inner_ok(tb.m(), e.1, content),
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn replaced<'b, 'a>(tb: &DiffableDocument<'b, 'a>, s: ShadowTree<'a>, d: Seq<(NodeId, NodeId)>, n: int, ps: Seq<Patch<'a>>) -> bool {
    ps.len() == n && forall|i: int| #![trigger ps[i]] 0 <= i < n ==> replaces(tb, s, d[i], ps[i]@)
}
/// What is compared, and what the patches say: the edit script between the two pages, then the opaque nodes.
pub open spec fn compared<'b, 'a>(p: PageV, q: PageV, new: &Document<'a>, ps: Seq<Patch<'a>>) -> bool {
    exists|ta: OpaqueAwareTree<'a>, tb: DiffableDocument<'b, 'a>, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, s: ShadowTree<'a>|
        #[trigger] told_of(ta, tb, mt, ops, s, ps) && two_pages(&ta, &tb, p, q) && tb.doc == new && unmarked(&ta, &tb, mt.pairs@) && ops.len() <= ps.len()
        && replaced(&tb, s, dues(&ta, &tb, mt.pairs@, mt.pairs@.len() as int), ps.len() - ops.len(), ps.skip(ops.len() as int))
        && ps.len() - ops.len() == dues(&ta, &tb, mt.pairs@, mt.pairs@.len() as int).len()
}
pub open spec fn told_of<'b, 'a>(ta: OpaqueAwareTree<'a>, tb: DiffableDocument<'b, 'a>, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, s: ShadowTree<'a>, ps: Seq<Patch<'a>>) -> bool {
    as_planned(ta.0, tb, mt, ops, ps.take(ops.len() as int), s)
}
proof fn replace_none<'b, 'a>(tb: &DiffableDocument<'b, 'a>, s: ShadowTree<'a>, d: Seq<(NodeId, NodeId)>, ps: Seq<Patch<'a>>)
    requires ps.len() == 0
    ensures replaced(tb, s, d, 0, ps)
{ reveal(replaced); }
proof fn replace_one<'b, 'a>(tb: &DiffableDocument<'b, 'a>, s: ShadowTree<'a>, d: Seq<(NodeId, NodeId)>, i: int, ps: Seq<Patch<'a>>, k: int, p: Patch<'a>)
    requires 0 <= k <= ps.len(), replaced(tb, s, d, i, ps.skip(k)), replaces(tb, s, d[i], p@)
    ensures replaced(tb, s, d, i + 1, ps.push(p).skip(k)), ps.push(p).take(k) == ps.take(k)
{
    reveal(replaced);
    assert(ps.push(p).skip(k) =~= ps.skip(k).push(p));
    assert(ps.push(p).take(k) =~= ps.take(k));
}

proof fn replaced_len<'b, 'a>(tb: &DiffableDocument<'b, 'a>, s: ShadowTree<'a>, d: Seq<(NodeId, NodeId)>, n: int, ps: Seq<Patch<'a>>)
    requires replaced(tb, s, d, n, ps)
    ensures ps.len() == n
{ reveal(replaced); }
pub proof fn planned_len<'b, 'a>(ta: Tree<HtmlTreeTypes<'a>>, tb: DiffableDocument<'b, 'a>, mt: Matching, ops: Seq<EditOp<HtmlTreeTypes<'a>>>, ps: Seq<Patch<'a>>, s: ShadowTree<'a>)
    requires as_planned(ta, tb, mt, ops, ps, s)
    ensures ps.len() == ops.len()
{
    let (hs, st, shs) = choose|hs: HashSet<NodeId>, st: Seq<ShM<'a>>, shs: Seq<Sh>| #[trigger] told(job(ta, hs, tb, mt, ops, s.super_root), ops.len() as int, ps, st, shs) && ready(job(ta, hs, tb, mt, ops, s.super_root)) && st.last() == s.m();
    told_last(job(ta, hs, tb, mt, ops, s.super_root), ops.len() as int, ps, st, shs);
}
pub open spec fn body_of(d: &Document<'_>) -> NodeId { choose|b: NodeId| the_body(d, b) }
proof fn bodies(old: &Document<'_>, new: &Document<'_>)
    requires page_ok(old), page_ok(new), leaves_ok(old), !no_body(old), !no_body(new)
    ensures the_body(old, body_of(old)), the_body(new, body_of(new))
{ a_body(old); a_body(new); }
proof fn a_body(d: &Document<'_>)
    requires !no_body(d)
    ensures the_body(d, body_of(d))
{
    let i = choose|i: int| 0 <= i < d.m().kids(d.root).len() && is_named(d.m(), #[trigger] d.m().kids(d.root)[i], "body"@);
    let k = first_at(d, i);
    assert(the_body(d, d.m().kids(d.root)[k]));
}
proof fn first_at(d: &Document<'_>, i: int) -> (k: int)
    requires 0 <= i < d.m().kids(d.root).len(), is_named(d.m(), d.m().kids(d.root)[i], "body"@)
    ensures 0 <= k <= i, is_named(d.m(), d.m().kids(d.root)[k], "body"@), forall|j: int| 0 <= j < k ==> !is_named(d.m(), #[trigger] d.m().kids(d.root)[j], "body"@)
    decreases i
{
    if forall|j: int| 0 <= j < i ==> !is_named(d.m(), #[trigger] d.m().kids(d.root)[j], "body"@) { i } else {
        let j = choose|j: int| 0 <= j < i && is_named(d.m(), #[trigger] d.m().kids(d.root)[j], "body"@);
        first_at(d, j)
    }
}

proof fn node_is<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, x: NodeId, y: NodeId)
    requires whole(ta.0.arena@, ta.0.root), tb.ok(), ta.s_has(x), tb.s_has(y)
    ensures alike(ta, x, tb, y) == (tree_node(ta.0.arena@.data(x)) == page_node(tb.m().data(y)))
{
    reveal(crate::doc_view::covers);
    assert(tb.nodes@.contains_key(y));
}
/// Two nodes have the same content when the two pages say the same below them.
pub proof fn same_is<'b, 'a>(ta: &OpaqueAwareTree<'a>, tb: &DiffableDocument<'b, 'a>, a: NodeId, b: NodeId)
    requires whole(ta.0.arena@, ta.0.root), tb.ok(), tree_ok(ta), tree_ok(tb), ta.s_has(a), tb.s_has(b)
    ensures same_below(ta, a, tb, b) == (tree_page(ta.0.arena@, a).kids == page(tb.m(), b).kids) // @H10
    decreases ta.s_height(a)
{
    hide(laws); hide(shown);
    let ma = ta.0.arena@;
    let mb = tb.m();
    let u = tree_page(ma, a);
    let v = page(mb, b);
    kids_shown(ma, tree_f(), a);
    kids_shown(mb, page_f(), b);
    if ma.kids(a).len() == mb.kids(b).len() {
        assert forall|i: int| #![trigger ma.kids(a)[i]] #![trigger mb.kids(b)[i]] 0 <= i < ma.kids(a).len() implies
            ta.s_height(ma.kids(a)[i]) < ta.s_height(a) && (alike(ta, ma.kids(a)[i], tb, mb.kids(b)[i]) && same_below(ta, ma.kids(a)[i], tb, mb.kids(b)[i]) <==> u.kids[i] == v.kids[i]) by {
            let (x, y) = (ma.kids(a)[i], mb.kids(b)[i]);
            down(ta, a, i);
            down(tb, b, i);
            node_is(ta, tb, x, y);
            same_is(ta, tb, x, y);
            tree_kind(ma, x);
            page_kind(mb, y);
            assert(u.kids[i] == tree_page(ma, x) && v.kids[i] == page(mb, y));
            let (s, t) = (tree_page(ma, x), page(mb, y));
            assert(s == t <==> (s.node == t.node && s.kids == t.kids));
        }
        if u.kids == v.kids { assert forall|i: int| 0 <= i < ma.kids(a).len() implies #[trigger] u.kids[i] == v.kids[i] && ma.kids(a)[i] == ma.kids(a)[i] by {} }
        if same_below(ta, a, tb, b) { assert forall|i: int| 0 <= i < u.kids.len() implies #[trigger] u.kids[i] == v.kids[i] by { let x = ma.kids(a)[i]; } assert(u.kids =~= v.kids); }
    }
}
proof fn tree_kind(m: TreeM<'_>, x: NodeId)
    ensures tree_page(m, x).node == tree_f()(m.data(x))
{}
proof fn down<T: DiffTree>(t: &T, a: NodeId, i: int)
    requires tree_ok(t), t.s_has(a), 0 <= i < t.s_children(a).len()
    ensures t.s_has(t.s_children(a)[i]), t.s_height(t.s_children(a)[i]) < t.s_height(a)
{ crate::matching_spec::kids(t, a); }

// ---- pages without a body
pub open spec fn removes(x: PatchV, pos: int) -> bool {
    match x { PatchV::Remove { node } => node.0.0@ == seq![0u32, pos as u32], _ => false }
}
/// The i-th patch places what hangs below the i-th child of `b`, as the i-th child.
pub open spec fn all_insert<'a>(m: Forest<'a>, b: NodeId, ps: Seq<Patch<'a>>) -> bool {
    forall|i: int| 0 <= i < ps.len() ==> inserts((#[trigger] ps[i])@, page(m, m.kids(b)[i]), i)
}
/// Of n children the last is removed first.
pub open spec fn all_remove(ps: Seq<Patch<'_>>, n: int) -> bool {
    forall|i: int| 0 <= i < ps.len() ==> removes((#[trigger] ps[i])@, n - 1 - i)
}
pub proof fn body_plain(d: &Document<'_>, b: NodeId)
    requires page_ok(d), the_body(d, b)
    ensures d.m().has(b), plain(d.m(), b), forall|i: int| 0 <= i < d.m().kids(b).len() ==> d.m().has(#[trigger] d.m().kids(b)[i]) && plain(d.m(), d.m().kids(b)[i])
{
    let m = d.m();
    let i = choose|i: int| 0 <= i < m.kids(d.root).len() && #[trigger] m.kids(d.root)[i] == b && is_named(m, b, "body"@) && forall|j: int| 0 <= j < i ==> !is_named(m, #[trigger] m.kids(d.root)[j], "body"@);
    kid_depth(m, d.root, i);
    plain_kids(m, b);
}
pub proof fn one_body(d: &Document<'_>, b: NodeId, c: NodeId)
    requires the_body(d, b), the_body(d, c)
    ensures b == c
{ one_first(d.m(), d.root, b, c, "body"@); }
proof fn not_both(d: &Document<'_>, b: NodeId)
    requires the_body(d, b)
    ensures !no_body(d)
{}

impl Default for MatchingConfig {
    //@fn <Default for MatchingConfig>::default loops=0
    //@end
}
//@fn diff loops=6
//@params old new
//@attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
//@spec
    requires
        page_ok(old), leaves_ok(old), page_ok(new), props_len_ok::<HtmlProps<'a>>(),
        forall|b: NodeId, c: NodeId| #[trigger] the_body(old, b) && #[trigger] the_body(new, c) ==> comparable(page(old.m(), b), page(new.m(), c)),
    ensures
        r is Ok, // @H10 @H11
        no_body(old) && no_body(new) ==> (r->Ok_0)@.len() == 0, // @H11
        forall|c: NodeId| #[trigger] the_body(new, c) && no_body(old) ==> (r->Ok_0)@.len() == new.m().kids(c).len() && all_insert(new.m(), c, (r->Ok_0)@), // @H11
        forall|b: NodeId| #[trigger] the_body(old, b) && no_body(new) ==> (r->Ok_0)@.len() == old.m().kids(b).len() && all_remove((r->Ok_0)@, (r->Ok_0)@.len() as int), // @H11
        forall|b: NodeId, c: NodeId| #[trigger] the_body(old, b) && #[trigger] the_body(new, c) ==> compared(page(old.m(), b), page(new.m(), c), new, (r->Ok_0)@), // @H10
//@start
    hide(shown); hide(page); hide(dig); hide(laws); hide(lead); hide(above); hide(trees); hide(plain); hide(dues); hide(same_below); hide(inner_ok); hide(in_op); hide(as_planned); hide(inserts); hide(first_named); hide(whole); hide(hashed); hide(tree_page);
    broadcast use few_kids;
    proof {
        node_eq();
        assert forall|b: NodeId| #[trigger] the_body(old, b) implies !no_body(old) by { not_both(old, b); }
        assert forall|b: NodeId| #[trigger] the_body(new, b) implies !no_body(new) by { not_both(new, b); }
        assert(forall|b: NodeId| #[trigger] first_named(old.m(), old.root, b, "body"@) ==> the_body(old, b));
        assert(forall|b: NodeId| #[trigger] first_named(new.m(), new.root, b, "body"@) ==> the_body(new, b));
    }
//@loop 0 before
    proof { body_plain(new, new_body_id); not_both(new, new_body_id); }
//@loop 0 head
    invariant
        trees(new.m()), __s0@.len() == new.m().kids(new_body_id).len(), __s0@.len() < u32::MAX,
        forall|i: int| 0 <= i < __s0@.len() ==> #[trigger] __s0@[i] == (i as usize, new.m().kids(new_body_id)[i]),
        forall|i: int| 0 <= i < new.m().kids(new_body_id).len() ==> new.m().has(#[trigger] new.m().kids(new_body_id)[i]) && plain(new.m(), new.m().kids(new_body_id)[i]),
        patches@.len() == __i0,
        all_insert(new.m(), new_body_id, patches@), // @H11
//@loop 0 after
    proof {
        assert forall|c: NodeId| #[trigger] the_body(new, c) implies c == new_body_id by { one_body(new, c, new_body_id); }
        assert forall|b: NodeId| #[trigger] the_body(old, b) implies false by { not_both(old, b); }
    }
//@after unwrap 1
    proof { body_plain(old, old_body_id); not_both(old, old_body_id); }
//@loop 1 head
    invariant
        __s1@.len() == old.m().kids(old_body_id).len(), __s1@.len() < u32::MAX,
        forall|i: int| 0 <= i < __s1@.len() ==> (#[trigger] __s1@[i]).0 == __s1@.len() - 1 - i,
        patches@.len() == __i1,
        all_remove(patches@, __s1@.len() as int), // @H11
//@loop 1 after
    proof {
        assert forall|c: NodeId| #[trigger] the_body(old, c) implies c == old_body_id by { one_body(old, c, old_body_id); }
        assert forall|b: NodeId| #[trigger] the_body(new, b) implies false by { not_both(new, b); }
    }
//@after build_tree_from_arena 0
    let ghost b0 = body_of(old);
    let ghost c0 = body_of(new);
    let ghost p = page(old.m(), b0);
    let ghost q = page(new.m(), c0);
    proof { bodies(old, new); }
//@before compute_matching 0
    let ghost t0 = tree_a;
    let ghost tb = diff_b;
    proof {
        one_body(new, c0, tb.body_id);
        assert(two_pages(&tree_a, &diff_b, p, q)); // @H09
        ready_to_match(&tree_a, &diff_b, p, q);
    }
//@after compute_matching 0
    let ghost m0 = matching;
    proof { root_pair(&tree_a, &diff_b, &matching); }
//@after add 0
    proof { root_added(&tree_a, &diff_b, &m0, &matching); }
//@loop 2 before
    proof {
        assert(paired_up(&tree_a, &diff_b, &matching)); // @H03
        reveal(paired_up);
        assert(unmarked(&tree_a, &diff_b, matching.pairs@.take(0)));
    }
//@loop 2 head
    invariant
        eq_ok::<NodeId>(), diff_b.ok(), __s2@ == matching.pairs@, m_ok(&t0, &diff_b, &matching), tree_a.0 == t0.0,
        unmarked(&tree_a, &diff_b, __s2@.take(__i2 as int)), // @H10
//@loop 2 start
    let ghost t1 = tree_a;
    proof { assert(t0.s_has(a_id) && diff_b.s_has(b_id)) by { assert(matching.pairs@[__i2 - 1] == (a_id, b_id)); } }
//@loop 2 end
    proof { unmark(&t1, &tree_a, &diff_b, __s2@, __i2 - 1); }
//@loop 2 after
    proof {
        assert(matching.pairs@.take(matching.pairs@.len() as int) =~= matching.pairs@);
        assert(t0.1@ =~= Set::<NodeId>::empty());
        still_paired(&t0, &tree_a, &diff_b, &matching);
    }
//@after generate_edit_script 0
    let ghost ops = edit_ops@;
    proof { all_ready(&tree_a, &diff_b, &matching, ops); }
//@loop 3 before
    proof { note_none(&tree_a, &diff_b, matching.pairs@, opaque_patches@); }
//@loop 3 head
    invariant
        eq_ok::<NodeId>(), diff_b.ok(), tree_ok(&tree_a), tree_ok(&diff_b), diff_b.doc == new, __s3@ == matching.pairs@, m_ok(&tree_a, &diff_b, &matching),
        noted(&tree_a, &diff_b, __s3@, __i3 as int, opaque_patches@), // @H10
//@loop 3 start
    proof {
        assert(__s3@[__i3 - 1] == (a_id, b_id));
        assert(tree_a.s_has(a_id) && diff_b.s_has(b_id));
        note(&tree_a, &diff_b, __s3@, __i3 - 1, opaque_patches@, arbitrary());
        climb_start(&diff_b, b_id);
    }
//@loop 4 head
    invariant_except_break diff_b.ok(), tree_ok(&diff_b), climbed(&diff_b, b_id, up, inside) // @H10
    ensures in_op(&diff_b, b_id) == inside // @H10
    decreases left(&diff_b, up)
//@loop 4 start
    proof { climb(&diff_b, b_id, p, inside); }
//@before push 2
    proof { note(&tree_a, &diff_b, __s3@, __i3 - 1, opaque_patches@, arbitrary()); }
    let ghost s0 = opaque_patches@;
//@after push 2
    proof {
        note(&tree_a, &diff_b, __s3@, __i3 - 1, s0, opaque_patches@.last().1);
        assert(opaque_patches@ == s0.push(((a_id, opaque_patches@.last().1))));
    }
//@before convert_ops_with_shadow 0
    let ghost d = dues(&tree_a, &diff_b, matching.pairs@, matching.pairs@.len() as int);
    let ghost notes = opaque_patches@;
//@loop 5 before
    let ghost n = ops.len() as int;
    let ghost plan = patches@;
    proof {
        planned_len(tree_a.0, diff_b, matching, ops, patches@, shadow);
        assert(patches@.skip(n) =~= Seq::empty());
        assert(patches@.take(n) =~= patches@);
        replace_none(&diff_b, shadow, d, patches@.skip(n));
        assert(d.len() == notes.len()) by { reveal(noted); }
    }
//@loop 5 owned
    yes
//@loop 5 head
    invariant
        shadow.inv(), n == ops.len(), n <= patches@.len(), as_planned(tree_a.0, diff_b, matching, ops, patches@.take(n), shadow), __s5@ == notes, notes.len() == d.len(),
        d == dues(&tree_a, &diff_b, matching.pairs@, matching.pairs@.len() as int),
        noted(&tree_a, &diff_b, matching.pairs@, matching.pairs@.len() as int, notes),
        replaced(&diff_b, shadow, d, __i5 as int, patches@.skip(n)), // @H10
//@loop 5 start
    let ghost ps = patches@;
    proof {
        assert(a_id == d[__i5 - 1].0 && inner_ok(diff_b.m(), d[__i5 - 1].1, content@)) by { reveal(noted); assert(notes[__i5 - 1].0 == a_id); }
        dues_in(&tree_a, &diff_b, matching.pairs@, matching.pairs@.len() as int, __i5 - 1);
        finds(tree_a.0, diff_b, matching, ops, patches@.take(n), shadow, d[__i5 - 1]);
    }
//@loop 5 end
    proof { replace_one(&diff_b, shadow, d, __i5 - 1, ps, n, patches@.last()); assert(patches@ == ps.push(patches@.last())); }
//@loop 5 after
    proof {
        replaced_len(&diff_b, shadow, d, __i5 as int, patches@.skip(n));
        assert(told_of(tree_a, diff_b, matching, ops, shadow, patches@));
        assert(compared(p, q, new, patches@));
        assert forall|b: NodeId, c: NodeId| #[trigger] the_body(old, b) && #[trigger] the_body(new, c) implies b == b0 && c == c0 by { one_body(old, b, b0); one_body(new, c, c0); }
        not_both(old, b0); not_both(new, c0);
    }
//@end

// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
#[verifier::rlimit(3)]
fn must_fail_diff<'a>(old: &Document<'a>, new: &Document<'a>, b: NodeId, c: NodeId)
    requires page_ok(old), leaves_ok(old), page_ok(new), props_len_ok::<HtmlProps<'a>>(), the_body(old, b), the_body(new, c), comparable(page(old.m(), b), page(new.m(), c)),
        old.m().kids(b).len() > 2, new.m().kids(c).len() > 3
{
    proof {
        assert forall|x: NodeId, y: NodeId| #[trigger] the_body(old, x) && #[trigger] the_body(new, y) implies comparable(page(old.m(), x), page(new.m(), y)) by { one_body(old, x, b); one_body(new, y, c); }
    }
    let r = diff(old, new);
    assert(false);
}
#[verifier::rlimit(3)]
fn must_fail_diff_in<'a>(old: &Document<'a>, new: &Document<'a>, c: NodeId)
    requires page_ok(old), leaves_ok(old), page_ok(new), props_len_ok::<HtmlProps<'a>>(), no_body(old), the_body(new, c), new.m().kids(c).len() > 3
{
    proof { assert forall|x: NodeId| #[trigger] the_body(old, x) implies false by { not_both(old, x); } }
    let r = diff(old, new);
    assert(false);
}
#[verifier::rlimit(3)]
fn must_fail_diff_out<'a>(old: &Document<'a>, new: &Document<'a>, b: NodeId)
    requires page_ok(old), leaves_ok(old), page_ok(new), props_len_ok::<HtmlProps<'a>>(), no_body(new), the_body(old, b), old.m().kids(b).len() > 3
{
    proof { assert forall|x: NodeId| #[trigger] the_body(new, x) implies false by { not_both(new, x); } }
    let r = diff(old, new);
    assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_compared<'b, 'a>(p: PageV, q: PageV, new: &'b Document<'a>, ps: Seq<Patch<'a>>)
    requires compared(p, q, new, ps), comparable(p, q), ps.len() > 4, p.kids.len() > 2, q.kids.len() > 2
{
    assert(false);
}

} // verus!
}
