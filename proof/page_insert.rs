// What a page's nodes look like in patches, and whether two nodes have the same content.
pub mod page_insert {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::forest::*;
use crate::forest_laws::*;
use crate::forest_walk::*;
use crate::page_content::*;
use crate::html_types::*;
use crate::html_dom::{Document, NodeKind, Namespace};
use crate::html_props::*;
use crate::html_patch::*;
use crate::doc_view::{Forest, page_node, page_f, page, plain};
verus! {

/// The content of an insertion that brings along everything there is at and below a node.
pub open spec fn as_content(p: PageV) -> ContentV
    decreases p
{
    match p.node.kind {
        HtmlNodeKind::Element(tag, _) => ContentV::Element { tag: tag, attrs: p.node.attrs,
            children: Seq::new(p.kids.len(), |i: int| if 0 <= i < p.kids.len() { as_content(p.kids[i]) } else { arbitrary() }) },
        HtmlNodeKind::Text => ContentV::Text(said(p)),
        HtmlNodeKind::Comment => ContentV::Comment(said(p)),
    }
}
pub open spec fn said(p: PageV) -> Seq<char> { match p.node.text { Some(t) => t, None => Seq::empty() } }
/// The patch that places all of it as the pos-th child of the first slot's root.
pub open spec fn inserts(x: PatchV, p: PageV, pos: int) -> bool {
    match x {
        PatchV::InsertElement { at, tag, attrs, children, detach_to_slot } => at.0.0@ == seq![0u32, pos as u32] && detach_to_slot is None
            && as_content(p) == (ContentV::Element { tag: tag, attrs: attrs, children: children }),
        PatchV::InsertText { at, text, detach_to_slot } => at.0.0@ == seq![0u32, pos as u32] && detach_to_slot is None && as_content(p) == ContentV::Text(text),
        PatchV::InsertComment { at, text, detach_to_slot } => at.0.0@ == seq![0u32, pos as u32] && detach_to_slot is None && as_content(p) == ContentV::Comment(text),
        _ => false,
    }
}
pub proof fn plain_kids<'a>(m: Forest<'a>, x: NodeId)
    requires trees(m), m.has(x), plain(m, x)
    ensures !(m.data(x).kind is Document), forall|i: int| 0 <= i < m.kids(x).len() ==> m.has(#[trigger] m.kids(x)[i]) && plain(m, m.kids(x)[i]) && below_top(m, m.kids(x)[i]) < below_top(m, x),
        page(m, x).node == page_node(m.data(x)), page(m, x).kids.len() == m.kids(x).len(), forall|i: int| 0 <= i < m.kids(x).len() ==> page(m, x).kids[i] == page(m, #[trigger] m.kids(x)[i]),
{
    assert(over(m, x, x));
    assert(m.data(x) == m.data(x));
    showns_are(m, page_f(), x, m.kids(x).len());
    assert forall|i: int| 0 <= i < m.kids(x).len() implies m.has(#[trigger] m.kids(x)[i]) && plain(m, m.kids(x)[i]) && below_top(m, m.kids(x)[i]) < below_top(m, x) by {
        kid_depth(m, x, i);
        let k = m.kids(x)[i];
        assert forall|y: NodeId| #![trigger m.data(y)] m.has(y) && over(m, k, y) implies !(m.data(y).kind is Document) by { over_up(m, k, y); }
    }
}
proof fn element_content<'a>(m: Forest<'a>, x: NodeId, r: InsertContent<'a>)
    requires trees(m), m.has(x), plain(m, x), m.data(x).kind is Element, r is Element, r->tag == m.data(x).kind->Element_0.tag,
        attrs_v(r->attrs@) == pairs_v(m.data(x).kind->Element_0.attrs@), r->children@.len() == m.kids(x).len(),
        forall|i: int| 0 <= i < m.kids(x).len() ==> r->children@[i]@ == as_content(page(m, #[trigger] m.kids(x)[i])),
    ensures r@ == as_content(page(m, x))
{
    lemma_element_v(r);
    plain_kids(m, x);
    let p = page(m, x);
    assert forall|i: int| 0 <= i < m.kids(x).len() implies contents_v(r->children@)[i] == as_content(p.kids[i]) by { assert(p.kids[i] == page(m, m.kids(x)[i])); }
    assert(as_content(p)->children =~= contents_v(r->children@));
}
//@fn create_insert_content loops=0
//@attr #[verifier::spinoff_prover]
//@params doc node_id
//@spec
    requires trees(doc.m()), doc.m().has(node_id), plain(doc.m(), node_id)
    ensures r is Some && r->0@ == as_content(page(doc.m(), node_id)), // @H11
    decreases below_top(doc.m(), node_id)
//@start
    hide(page); hide(plain);
    let ghost m = doc.m();
    proof { node_eq(); plain_kids(m, node_id); }
//@closure 0 type
  AttrPair<'a>
//@closure 0 ensures
  r.name == __c0_0.0, r.value@ == __c0_0.1@
//@closure 1 requires
  trees(doc.m()) && doc.m().has(__c1_0) && plain(doc.m(), __c1_0) && below_top(doc.m(), __c1_0) < below_top(doc.m(), node_id)
//@closure 1 type
  Option<InsertContent<'a>>
//@closure 1 ensures
  r is Some && r->0@ == as_content(page(doc.m(), __c1_0))
//@after collect 1
    proof { assert(attrs_v(attrs@) =~= pairs_v(m.data(node_id).kind->Element_0.attrs@)); element_content(m, node_id, InsertContent::Element { tag: elem.tag, attrs, children }); }
//@end
//@fn create_insert_patch loops=0
//@attr #[verifier::spinoff_prover] pub
//@params doc node_id position
//@spec
    requires trees(doc.m()), doc.m().has(node_id), plain(doc.m(), node_id), position < 0x1_0000_0000
    ensures r is Ok && inserts(r->Ok_0@, page(doc.m(), node_id), position as int), // @H11
//@start
    hide(page); hide(plain);
    let ghost m = doc.m();
    proof { node_eq(); plain_kids(m, node_id); }
//@closure 0 type
  AttrPair<'a>
//@closure 0 ensures
  r.name == __c0_0.0, r.value@ == __c0_0.1@
//@closure 1 requires
  trees(doc.m()) && doc.m().has(__c1_0) && plain(doc.m(), __c1_0)
//@closure 1 type
  Option<InsertContent<'a>>
//@closure 1 ensures
  r is Some && r->0@ == as_content(page(doc.m(), __c1_0))
//@after collect 1
    proof {
        assert(attrs_v(attrs@) =~= pairs_v(m.data(node_id).kind->Element_0.attrs@));
        let whole = InsertContent::Element { tag: elem.tag, attrs, children };
        element_content(m, node_id, whole);
        lemma_element_v(whole);
    }
//@end

// ---- the content of opaque nodes
pub open spec fn alike<'a, TA: DiffTree<Types = HtmlTreeTypes<'a>>, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: &TA, x: NodeId, tb: &TB, y: NodeId) -> bool {
    &&& *ta.s_kind(x) == *tb.s_kind(y)
    &&& (ta.s_text(x) is Some <==> tb.s_text(y) is Some) && (ta.s_text(x) is Some ==> ta.s_text(x)->0@ == tb.s_text(y)->0@)
    &&& pairs_v(ta.s_properties(x).attrs@) == pairs_v(tb.s_properties(y).attrs@)
}
/// The same nodes, with the same attributes and texts, are below `a` and below `b`.
pub open spec fn same_below<'a, TA: DiffTree<Types = HtmlTreeTypes<'a>>, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: &TA, a: NodeId, tb: &TB, b: NodeId) -> bool
    decreases ta.s_height(a)
{
    &&& ta.s_children(a).len() == tb.s_children(b).len()
    &&& forall|i: int| #![trigger ta.s_children(a)[i]] #![trigger tb.s_children(b)[i]] 0 <= i < ta.s_children(a).len() ==> {
        let (x, y) = (ta.s_children(a)[i], tb.s_children(b)[i]);
        alike(ta, x, tb, y) && ta.s_height(x) < ta.s_height(a) && same_below(ta, x, tb, y)
    }
}
proof fn stems_eq()
    ensures forall|x: Stem<'_>, y: Stem<'_>| #[trigger] PartialEqSpec::eq_spec(&x, &y) <==> x@ == y@, <Option<&Stem<'_>> as PartialEqSpec>::obeys_eq_spec(),
        forall|x: Option<&Stem<'_>>, y: Option<&Stem<'_>>| #[trigger] PartialEqSpec::eq_spec(&x, &y) <==> ((x is Some <==> y is Some) && (x is Some ==> x->0@ == y->0@)),
        <&HtmlNodeKind as PartialEqSpec>::obeys_eq_spec(), forall|x: &HtmlNodeKind, y: &HtmlNodeKind| #[trigger] PartialEqSpec::eq_spec(&x, &y) <==> *x == *y,
{}
proof fn attrs_eq(a: Vec<(QualName, Stem<'_>)>, b: Vec<(QualName, Stem<'_>)>)
    ensures PartialEqSpec::eq_spec(&a, &b) <==> pairs_v(a@) == pairs_v(b@), <Vec<(QualName, Stem<'_>)> as PartialEqSpec>::obeys_eq_spec(),
{
    if PartialEqSpec::eq_spec(&a, &b) {
        assert forall|i: int| 0 <= i < a@.len() implies pairs_v(a@)[i] == #[trigger] pairs_v(b@)[i] by { assert(PartialEqSpec::eq_spec(&a@[i], &b@[i])); }
        assert(pairs_v(a@) =~= pairs_v(b@));
    }
    if pairs_v(a@) == pairs_v(b@) {
        assert(a@.len() == pairs_v(a@).len());
        assert forall|i: int| 0 <= i < a@.len() implies PartialEqSpec::eq_spec(&#[trigger] a@[i], &b@[i]) by { assert(pairs_v(a@)[i] == pairs_v(b@)[i]); }
    }
}
#[verifier::opaque]
pub open spec fn same_upto<'a, TA: DiffTree<Types = HtmlTreeTypes<'a>>, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: &TA, a: NodeId, tb: &TB, b: NodeId, n: int) -> bool {
    forall|i: int| #![trigger ta.s_children(a)[i]] #![trigger tb.s_children(b)[i]] 0 <= i < n ==> alike(ta, ta.s_children(a)[i], tb, tb.s_children(b)[i]) && same_below(ta, ta.s_children(a)[i], tb, tb.s_children(b)[i])
}
proof fn same_start<'a, TA: DiffTree<Types = HtmlTreeTypes<'a>>, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: &TA, a: NodeId, tb: &TB, b: NodeId)
    requires tree_ok(ta), tree_ok(tb), ta.s_has(a), tb.s_has(b)
    ensures same_upto(ta, a, tb, b, 0), ta.s_children(a).len() != tb.s_children(b).len() ==> !same_below(ta, a, tb, b),
        ta.s_children(a).len() == tb.s_children(b).len() && same_upto(ta, a, tb, b, ta.s_children(a).len() as int) ==> same_below(ta, a, tb, b)
{
    reveal(same_upto);
    if ta.s_children(a).len() == tb.s_children(b).len() && same_upto(ta, a, tb, b, ta.s_children(a).len() as int) {
        assert forall|i: int| #![trigger ta.s_children(a)[i]] #![trigger tb.s_children(b)[i]] 0 <= i < ta.s_children(a).len() implies ({
            let (x, y) = (ta.s_children(a)[i], tb.s_children(b)[i]);
            alike(ta, x, tb, y) && ta.s_height(x) < ta.s_height(a) && same_below(ta, x, tb, y)
        }) by {
            let x = ta.s_children(a)[i];
            assert(ta.s_has(x) && ta.s_parent(x) == Some(a));
        }
    }
}
proof fn same_step<'a, TA: DiffTree<Types = HtmlTreeTypes<'a>>, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: &TA, a: NodeId, tb: &TB, b: NodeId, i: int)
    requires tree_ok(ta), tree_ok(tb), ta.s_has(a), tb.s_has(b), 0 <= i < ta.s_children(a).len(), ta.s_children(a).len() == tb.s_children(b).len(), same_upto(ta, a, tb, b, i)
    ensures ({
        let (x, y) = (ta.s_children(a)[i], tb.s_children(b)[i]);
        &&& ta.s_has(x) && tb.s_has(y) && ta.s_height(x) < ta.s_height(a)
        &&& alike(ta, x, tb, y) && same_below(ta, x, tb, y) ==> same_upto(ta, a, tb, b, i + 1)
        &&& !(alike(ta, x, tb, y) && same_below(ta, x, tb, y)) ==> !same_below(ta, a, tb, b)
    })
{
    reveal(same_upto);
    let (x, y) = (ta.s_children(a)[i], tb.s_children(b)[i]);
    assert(ta.s_has(x) && ta.s_parent(x) == Some(a));
    assert(tb.s_has(y) && tb.s_parent(y) == Some(b));
}
//@fn same_content loops=1
//@params tree_a a tree_b b
//@attr #[verifier::spinoff_prover] pub
//@spec
    requires tree_ok(tree_a), tree_ok(tree_b), tree_a.s_has(a), tree_b.s_has(b)
    ensures r == same_below(tree_a, a, tree_b, b), // @H10
    decreases tree_a.s_height(a)
//@start
    hide(same_below); hide(laws);
    proof { same_start(tree_a, a, tree_b, b); }
//@loop 0 head
    invariant
        tree_ok(tree_a), tree_ok(tree_b), tree_a.s_has(a), tree_b.s_has(b), kids_a@ == tree_a.s_children(a), kids_b@ == tree_b.s_children(b), kids_a@.len() == kids_b@.len(),
        __s0@.len() == kids_a@.len(), forall|j: int| 0 <= j < __s0@.len() ==> #[trigger] __s0@[j] == j,
        same_upto(tree_a, a, tree_b, b, __i0 as int), // @H10
//@loop 0 start
    proof {
        same_step(tree_a, a, tree_b, b, __i0 - 1);
        stems_eq();
        attrs_eq(tree_a.s_properties(tree_a.s_children(a)[__i0 - 1]).attrs, tree_b.s_properties(tree_b.s_children(b)[__i0 - 1]).attrs);
    }
//@end

// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
#[verifier::rlimit(3)]
fn must_fail_insert<'a>(doc: &Document<'a>, x: NodeId)
    requires trees(doc.m()), doc.m().has(x), plain(doc.m(), x), doc.m().kids(x).len() > 2, doc.m().data(x).kind is Element, doc.m().data(x).kind->Element_0.attrs@.len() > 1
{
    let r = create_insert_patch(doc, x, 3);
    assert(false);
}
#[verifier::rlimit(3)]
fn must_fail_same<'a, TA: DiffTree<Types = HtmlTreeTypes<'a>>, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(ta: &TA, a: NodeId, tb: &TB, b: NodeId)
    requires tree_ok(ta), tree_ok(tb), ta.s_has(a), tb.s_has(b), ta.s_children(a).len() > 1, tb.s_children(b).len() > 1
{
    if same_content(ta, a, tb, b) { assert(false); }
}

} // verus!
}
