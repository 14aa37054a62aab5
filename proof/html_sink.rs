// H14: what html5ever's tree builder asks for is what the document becomes.
pub mod html_sink {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::html_types::*;
use crate::html_dom::*;
use crate::html_dom::{NodeData, NodeKind};
use crate::html_props::*;
use crate::html_patch::*;
use crate::html_apply::*;
use crate::html_edit::*;
pub mod tendril { pub trait TendrilSink {} }
pub mod html5ever { pub use super::parse_fragment; }
verus! {

/// ASSUMED(html5ever): its data types.
pub struct Attribute { pub name: QualName, pub value: StrTendril }
pub struct ElementFlags { pub p: bool }
pub enum QuirksMode { Quirks, LimitedQuirks, NoQuirks }
pub enum NodeOrText<H> { AppendNode(H), AppendText(StrTendril) }
impl StrTendril {
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
}
impl NsName {
    pub uninterp spec fn s(&self) -> Seq<char>;
}
impl AsRefStr for NsName {
    open spec fn text(&self) -> Seq<char> { self.s() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}
/// ASSUMED(html5ever): what its macros ns! and local_name! stand for.
pub open spec fn ns_url(n: Seq<char>) -> Seq<char> {
    if n == "html"@ { "http://www.w3.org/1999/xhtml"@ } else if n == "svg"@ { "http://www.w3.org/2000/svg"@ } else if n == "mathml"@ { "http://www.w3.org/1998/Math/MathML"@ } else { ""@ }
}
#[verifier::external_body]
pub fn ns_name(n: &str) -> (r: NsName) ensures r.s() == ns_url(n@) { unimplemented!() }
#[verifier::external_body]
pub fn local_name(n: &str) -> (r: LocalName) ensures r.s() == n@ { unimplemented!() }
pub open spec fn ns_of(url: Seq<char>) -> Namespace {
    if url == "http://www.w3.org/2000/svg"@ { Namespace::Svg } else if url == "http://www.w3.org/1998/Math/MathML"@ { Namespace::MathMl } else { Namespace::Html }
}
/// ASSUMED: two `&str` are equal exactly when their characters are (what matching on a literal tests).
pub axiom fn str_value(a: &str, b: &str)
    ensures (a == b) == (a@ == b@);
impl Namespace {
    //@fn Namespace::from_url loops=0
    //@spec
        ensures r == ns_of(url@), // @H14
    //@start
        proof {
            reveal_strlit("http://www.w3.org/1999/xhtml"); reveal_strlit("http://www.w3.org/2000/svg"); reveal_strlit("http://www.w3.org/1998/Math/MathML");
            assert("http://www.w3.org/1999/xhtml"@.len() == 28 && "http://www.w3.org/2000/svg"@.len() == 26 && "http://www.w3.org/1998/Math/MathML"@.len() == 34);
            str_value(url, "http://www.w3.org/1999/xhtml"); str_value(url, "http://www.w3.org/2000/svg"); str_value(url, "http://www.w3.org/1998/Math/MathML");
        }
    //@end
    //@fn Namespace::url loops=0
    //@spec
        ensures ns_of(r@) == *self, // @H14
    //@start
        proof {
            reveal_strlit("http://www.w3.org/1999/xhtml"); reveal_strlit("http://www.w3.org/2000/svg"); reveal_strlit("http://www.w3.org/1998/Math/MathML");
            assert("http://www.w3.org/1999/xhtml"@.len() == 28 && "http://www.w3.org/2000/svg"@.len() == 26 && "http://www.w3.org/1998/Math/MathML"@.len() == 34);
        }
    //@end
}
/// for debugging only: nothing is said about its result
//@fn dump_arena_subtree sigonly
//@attr #[verifier::external_body]
//@spec
//@end

//@item ArenaSink cells
//@item OwnedElemName
impl OwnedElemName {
    //@fn <ElemName for OwnedElemName>::local_name loops=0
    //@spec
        ensures *r == self.0.local, // @H14
    //@end
}
/// ASSUMED: the slice of the input that the text's bytes lie in is that text (pointer arithmetic).
//@fn tendril_to_stem_with_input sigonly
//@attr #[verifier::external_body]
//@spec
    ensures r@ == t@, r == made_stem(input, t),
//@end
pub uninterp spec fn made_stem<'a>(input: &'a str, t: StrTendril) -> Stem<'a>;

pub open spec fn same_sink(a: &ArenaSink<'_>, b: &ArenaSink<'_>) -> bool { a.document == b.document && a.doctype == b.doctype && a.input == b.input && a.errors == b.errors }
/// The given attributes, in order.
pub open spec fn given(l: Seq<Attribute>, r: Seq<(QualName, Stem<'_>)>) -> bool {
    l.len() == r.len() && forall|i: int| #![trigger r[i]] 0 <= i < l.len() ==> r[i].0 == l[i].name && r[i].1@ == l[i].value@
}
/// The document node's first element child; the document node if it has none.
pub open spec fn root_of<'a>(a: DocM<'a>, d: NodeId, r: NodeId) -> bool {
    let l = a.kids(d);
    ||| exists|i: int| 0 <= i < l.len() && r == #[trigger] l[i] && a.data(r).kind is Element && forall|j: int| 0 <= j < i ==> !(a.data(#[trigger] l[j]).kind is Element)
    ||| r == d && forall|j: int| 0 <= j < l.len() ==> !(a.data(#[trigger] l[j]).kind is Element)
}
pub open spec fn is_text(d: NodeData<'_>, t: Seq<char>) -> bool { d.kind is Text && d.kind->Text_0@ == t }
/// `x` says `t` more.
pub open spec fn more_text<'a>(a: DocM<'a>, b: DocM<'a>, x: NodeId, t: Seq<char>) -> bool {
    told(a, b, x) && b.data(x).ns == a.data(x).ns && is_text(b.data(x), a.data(x).kind->Text_0@ + t)
}
/// A new text node at place `k` below `p`; nothing else changed.
pub open spec fn new_text<'a>(a: DocM<'a>, b: DocM<'a>, p: NodeId, k: int, t: Seq<char>) -> bool {
    exists|x: NodeId| #![trigger b.kids(x)] {
        &&& !a.has(x) && is_text(b.data(x), t) && b.kids(x).len() == 0
        &&& b.kids(p) == a.kids(p).insert(k, x)
        &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == (a.has(y) || y == x)
        &&& forall|y: NodeId| #![trigger b.data(y)] y != x ==> b.data(y) == a.data(y)
        &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == (if y == x { Some(p) } else { a.par(y) })
        &&& forall|y: NodeId| #![trigger b.kids(y)] y != x && y != p ==> b.kids(y) == a.kids(y)
    }
}
/// The text `t` is put at place `k` below `p`: it joins a text node right before that place.
pub open spec fn text_put<'a>(a: DocM<'a>, b: DocM<'a>, p: NodeId, k: int, t: Seq<char>) -> bool {
    if k > 0 && a.data(a.kids(p)[k - 1]).kind is Text { more_text(a, b, a.kids(p)[k - 1], t) } else { new_text(a, b, p, k, t) }
}
pub open spec fn appended<'a>(a: DocM<'a>, b: DocM<'a>, p: NodeId, c: NodeOrText<NodeId>) -> bool {
    match c {
        NodeOrText::AppendNode(n) => inserted(a, b, p, without(a.kids(p), n).len() as int, n),
        NodeOrText::AppendText(t) => text_put(a, b, p, a.kids(p).len() as int, t@),
    }
}
pub open spec fn put_before<'a>(a: DocM<'a>, b: DocM<'a>, x: NodeId, c: NodeOrText<NodeId>) -> bool {
    let p = a.par(x)->0;
    match c {
        NodeOrText::AppendNode(n) => inserted(a, b, p, without(a.kids(p), n).index_of(x), n),
        NodeOrText::AppendText(t) => text_put(a, b, p, a.kids(p).index_of(x), t@),
    }
}
pub open spec fn may_put<'a>(a: DocM<'a>, x: NodeId, c: NodeOrText<NodeId>) -> bool {
    match c { NodeOrText::AppendNode(n) => a.has(n) && !above(a, n, x), NodeOrText::AppendText(_) => true }
}
/// Only names that were not there yet are added, in order, at the end.
pub open spec fn with_missing<'a>(o: Seq<(QualName, Seq<char>)>, l: Seq<(QualName, Seq<char>)>) -> Seq<(QualName, Seq<char>)>
    decreases l.len()
{
    if l.len() == 0 { o } else {
        let w = with_missing(o, l.drop_last());
        if exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == l.last().0 { w } else { w.push(l.last()) }
    }
}
pub open spec fn pairs(l: Seq<(QualName, Stem<'_>)>) -> Seq<(QualName, Seq<char>)> { Seq::new(l.len(), |i: int| (l[i].0, l[i].1@)) }
pub open spec fn asked(l: Seq<Attribute>) -> Seq<(QualName, Seq<char>)> { Seq::new(l.len(), |i: int| (l[i].name, l[i].value@)) }

pub proof fn before_is<'a>(z: DocM<'a>, x: NodeId)
    requires trees(z), z.has(x), z.par(x) is Some
    ensures ({
        let p = z.par(x)->0;
        let k = z.kids(p).index_of(x);
        z.has(p) && 0 <= k < z.kids(p).len() && z.kids(p)[k] == x && (k > 0 ==> z.has(z.kids(p)[k - 1]) && before_in(z.kids(p), x) == Some(z.kids(p)[k - 1]))
            && (k <= 0 ==> before_in(z.kids(p), x) is None)
    })
{
    let p = z.par(x)->0;
    assert(z.kids(p).contains(x));
    let k = z.kids(p).index_of(x);
    if k > 0 { kid_depth(z, p, k - 1); }
}
/// All children of `n` are, in order, the last children of `p`; `i` of them so far.
pub open spec fn handed<'a>(a: DocM<'a>, b: DocM<'a>, n: NodeId, p: NodeId, i: int) -> bool {
    &&& same_nodes(a, b)
    &&& b.kids(n) == a.kids(n).skip(i)
    &&& b.kids(p) == a.kids(p) + a.kids(n).take(i)
    &&& forall|y: NodeId| #![trigger b.kids(y)] y != n && y != p ==> b.kids(y) == a.kids(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == (if a.par(y) == Some(n) && a.kids(n).take(i).contains(y) { Some(p) } else { a.par(y) })
}
pub proof fn chain_same<'a>(z: DocM<'a>, m: DocM<'a>, n: NodeId, p: NodeId, k: nat)
    requires trees(z), z.has(p), !above(z, n, p), forall|y: NodeId| #![trigger m.par(y)] z.par(y) != Some(n) ==> m.par(y) == z.par(y)
    ensures up(m, p, k) == up(z, p, k)
    decreases k
{
    if k > 0 {
        chain_same(z, m, n, p, (k - 1) as nat);
        match up(z, p, (k - 1) as nat) {
            Some(y) => { if z.par(y) == Some(n) { assert(up(z, p, k) == Some(n)); } assert(m.par(y) == z.par(y)); }
            None => {}
        }
    }
}
pub proof fn not_over<'a>(z: DocM<'a>, m: DocM<'a>, n: NodeId, p: NodeId, c: NodeId)
    requires trees(z), z.has(p), !above(z, n, p), z.par(c) == Some(n), forall|y: NodeId| #![trigger m.par(y)] z.par(y) != Some(n) ==> m.par(y) == z.par(y)
    ensures !above(m, c, p)
{
    if above(m, c, p) {
        let k = choose|k: nat| #[trigger] up(m, p, k) == Some(c);
        chain_same(z, m, n, p, k);
        assert(up(z, p, k + 1) == Some(n));
    }
}
pub proof fn hand_step<'a>(z: DocM<'a>, a: DocM<'a>, b: DocM<'a>, d: DocM<'a>, n: NodeId, p: NodeId, i: int)
    requires trees(z), trees(a), trees(b), trees(d), z.has(n), z.has(p), n != p, handed(z, a, n, p, i), 0 <= i < z.kids(n).len(),
        detached(a, b, z.kids(n)[i]), inserted(b, d, p, without(b.kids(p), z.kids(n)[i]).len() as int, z.kids(n)[i])
    ensures handed(z, d, n, p, i + 1)
{
    let c = z.kids(n)[i];
    let o = z.kids(n);
    kid_depth(z, n, i);
    assert(!o.take(i).contains(c)) by {
        if o.take(i).contains(c) { let j = choose|j: int| 0 <= j < i && #[trigger] o.take(i)[j] == c; assert(o[j] == o[i]); }
    }
    assert(a.par(c) == Some(n));
    assert(a.kids(n)[0] == c);
    assert(without(a.kids(n), c) =~= o.skip(i + 1)) by {
        assert(a.kids(n).contains(c));
        let w = a.kids(n).index_of(c);
        assert(a.has(n));
        assert(a.kids(n).no_duplicates());
        assert(w == 0);
    }
    assert(b.kids(n) == o.skip(i + 1));
    assert(b.kids(p) == a.kids(p));
    assert(b.par(c) is None);
    assert(b.has(p));
    no_kid(b, p, c);
    assert(d.kids(p) == b.kids(p).insert(b.kids(p).len() as int, c));
    assert(o.take(i + 1) =~= o.take(i).push(c));
    assert(d.kids(p) =~= z.kids(p) + o.take(i + 1));
    assert forall|y: NodeId| #![trigger d.par(y)] d.par(y) == (if z.par(y) == Some(n) && o.take(i + 1).contains(y) { Some(p) } else { z.par(y) }) by {
        assert(o.take(i + 1).contains(y) == (o.take(i).contains(y) || y == c)) by {
            if o.take(i).contains(y) { let j = choose|j: int| 0 <= j < i && #[trigger] o.take(i)[j] == y; assert(o.take(i + 1)[j] == y); }
            if y == c { assert(o.take(i + 1)[i] == c); }
            if o.take(i + 1).contains(y) { let j = choose|j: int| 0 <= j < i + 1 && #[trigger] o.take(i + 1)[j] == y; if j < i { assert(o.take(i)[j] == y); } }
        }
        assert(b.par(y) == (if y == c { None } else { a.par(y) }));
    }
    assert forall|y: NodeId| #![trigger d.kids(y)] y != n && y != p implies d.kids(y) == z.kids(y) by { assert(b.kids(y) == a.kids(y)); }
    assert(d.kids(n) == b.kids(n));
    assert forall|y: NodeId| #![trigger d.has(y)] d.has(y) == z.has(y) by { assert(b.has(y) == a.has(y)); }
    assert forall|y: NodeId| #![trigger d.data(y)] d.data(y) == z.data(y) by { assert(b.data(y) == a.data(y)); }
}
pub open spec fn add_name<'a>(o: Seq<(QualName, Seq<char>)>, q: QualName) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == q }
/// (looking at a node through a mutable reference leaves an arena that says the same)
pub open spec fn alike<'a>(a: DocM<'a>, b: DocM<'a>) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == a.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == a.par(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] b.kids(y) == a.kids(y)
}
pub proof fn text_ready<'a>(z: DocM<'a>, a: DocM<'a>, b: DocM<'a>, x: NodeId, at: NodeId)
    requires trees(z), trees(a), alike(z, a), z.has(at), created(a, b, x, b.data(x))
    ensures !above(b, x, at), b.has(at)
{ assert(a.has(at)); new_above(a, b, x, b.data(x), at); }
pub proof fn text_made<'a>(z: DocM<'a>, a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, p: NodeId, k: int, x: NodeId, t: Seq<char>)
    requires trees(z), trees(a), trees(b), alike(z, a), z.has(p), created(a, b, x, b.data(x)), is_text(b.data(x), t), inserted(b, c, p, k, x), 0 <= k <= z.kids(p).len()
    ensures new_text(z, c, p, k, t)
{
    assert(a.has(p) && b.has(p) && b.has(x));
    no_kid(b, p, x);
    assert(!z.has(x)) by { assert(a.has(x) == z.has(x)); }
    assert(c.kids(p) == b.kids(p).insert(k, x));
    assert(b.kids(p) == a.kids(p) && a.kids(p) == z.kids(p));
    assert(c.kids(x) == b.kids(x) && b.kids(x).len() == 0);
    assert(is_text(c.data(x), t));
    assert forall|y: NodeId| #![trigger c.has(y)] c.has(y) == (z.has(y) || y == x) by { assert(b.has(y) == (a.has(y) || y == x)); assert(a.has(y) == z.has(y)); }
    assert forall|y: NodeId| #![trigger c.data(y)] y != x implies c.data(y) == z.data(y) by { assert(b.data(y) == a.data(y)); assert(a.data(y) == z.data(y)); }
    assert forall|y: NodeId| #![trigger c.par(y)] c.par(y) == (if y == x { Some(p) } else { z.par(y) }) by { assert(b.par(y) == (if y == x { None } else { a.par(y) })); assert(a.par(y) == z.par(y)); }
    assert forall|y: NodeId| #![trigger c.kids(y)] y != x && y != p implies c.kids(y) == z.kids(y) by { assert(b.kids(y) == a.kids(y)); assert(a.kids(y) == z.kids(y)); assert(b.par(x) is None); }
}

impl<'a> ArenaSink<'a> {
    pub open spec fn s_tendril_to_stem(&self, t: StrTendril) -> Stem<'a> { made_stem(self.input, t) }
    //@fn ArenaSink::new loops=0 cells
    //@params input
    //@spec
        ensures trees(r.arena@), r.arena@.has(r.document), r.arena@.data(r.document).kind is Document, r.arena@.kids(r.document).len() == 0, // @H14
            r.arena@.par(r.document) is None, r.doctype is None, // @H14
    //@end
    //@fn ArenaSink::tendril_to_stem loops=0
    //@params t
    //@spec
        ensures r@ == t@, // @H14
            r == self.s_tendril_to_stem(t),
    //@end
    //@fn <TreeSink for ArenaSink>::finish loops=0 cells
    //@spec
        requires trees(self.arena@), self.arena@.has(self.document)
        ensures r.arena == self.arena, r.doctype == self.doctype, // @H14
            root_of(self.arena@, self.document, r.root), // @H14
            r.errors == self.errors, // @H14
    //@start
        let ghost z = self.arena@;
        let ghost l = z.kids(self.document);
        proof { assert forall|i: int| 0 <= i < l.len() implies z.has(#[trigger] l[i]) by { kid_depth(z, self.document, i); } }
    //@closure 0 requires
        z.has(*__c0_0)
    //@closure 0 ensures
        r == (z.data(*__c0_0).kind is Element)
    //@end
    //@fn <TreeSink for ArenaSink>::get_document loops=0 cells
    //@spec
        ensures r == old(self).document, *final(self) == *old(self), // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::elem_name loops=0 cells
    //@params target
    //@spec
        requires trees(old(self).arena@), old(self).arena@.has(*target)
        ensures *final(self) == *old(self), // @H14
            old(self).arena@.data(*target).kind is Element ==> r.0.local == old(self).arena@.data(*target).kind->Element_0.tag && ns_of(r.0.ns.s()) == old(self).arena@.data(*target).ns, // @H14
            !(old(self).arena@.data(*target).kind is Element) ==> r.0.local.s().len() == 0 && ns_of(r.0.ns.s()) is Html, // @H14
    //@start
        proof {
            reveal_strlit("http://www.w3.org/1999/xhtml"); reveal_strlit("http://www.w3.org/2000/svg"); reveal_strlit("http://www.w3.org/1998/Math/MathML");
            reveal_strlit("html"); reveal_strlit("svg"); reveal_strlit("mathml"); reveal_strlit("");
            assert("http://www.w3.org/1999/xhtml"@.len() == 28 && "http://www.w3.org/2000/svg"@.len() == 26 && "http://www.w3.org/1998/Math/MathML"@.len() == 34);
            assert("html"@.len() == 4 && "svg"@.len() == 3 && "mathml"@.len() == 6);
        }
    //@end
    //@fn <TreeSink for ArenaSink>::create_element loops=0 cells
    //@params name attrs _flags
    //@closure 0 ensures
        r.0 == __c0_0.name && r.1@ == __c0_0.value@
    //@closure 0 type
        (QualName, Stem<'a>)
    //@spec
        requires trees(old(self).arena@)
        ensures created(old(self).arena@, final(self).arena@, r, final(self).arena@.data(r)), same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
            final(self).arena@.data(r).kind is Element, final(self).arena@.data(r).kind->Element_0.tag == name.local, // @H14
            final(self).arena@.data(r).ns == ns_of(name.ns.s()), given(attrs@, final(self).arena@.data(r).kind->Element_0.attrs@), // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::create_comment loops=0 cells
    //@params text
    //@spec
        requires trees(old(self).arena@)
        ensures created(old(self).arena@, final(self).arena@, r, final(self).arena@.data(r)), same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
            final(self).arena@.data(r).kind is Comment, final(self).arena@.data(r).kind->Comment_0@ == text@, // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::append loops=0 cells
    //@params parent child
    //@spec
        requires trees(old(self).arena@), old(self).arena@.has(*parent), may_put(old(self).arena@, *parent, child)
        ensures appended(old(self).arena@, final(self).arena@, *parent, child), same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
    //@start
        let ghost z = self.arena@;
        let ghost what = child;
        proof { if z.kids(*parent).len() > 0 { kid_depth(z, *parent, z.kids(*parent).len() - 1); } }
    //@before new_node 0
        let ghost a = arena@;
    //@after new_node 0
        let ghost b = arena@;
        proof { text_ready(z, a, b, text_node, *parent); no_kid(b, *parent, text_node); }
    //@after append 1
        proof { text_made(z, a, b, arena@, *parent, z.kids(*parent).len() as int, text_node, what->AppendText_0@); } // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::append_before_sibling loops=0 cells
    //@params sibling new_node
    //@spec
        requires trees(old(self).arena@), old(self).arena@.has(*sibling), old(self).arena@.par(*sibling) is Some, may_put(old(self).arena@, *sibling, new_node)
        ensures put_before(old(self).arena@, final(self).arena@, *sibling, new_node), same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
    //@start
        let ghost z = self.arena@;
        let ghost what = new_node;
        let ghost p = z.par(*sibling)->0;
        let ghost k = z.kids(p).index_of(*sibling);
        proof { before_is(z, *sibling); }
    //@before new_node 0
        let ghost a = arena@;
    //@after new_node 0
        let ghost b = arena@;
        proof { text_ready(z, a, b, text_node, *sibling); no_kid(b, p, text_node); }
    //@after insert_before 1
        proof { text_made(z, a, b, arena@, p, k, text_node, what->AppendText_0@); } // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::append_based_on_parent_node loops=0 cells
    //@params element prev_element child
    //@spec
        requires trees(old(self).arena@), old(self).arena@.has(*element), old(self).arena@.has(*prev_element),
            may_put(old(self).arena@, *element, child), may_put(old(self).arena@, *prev_element, child)
        ensures (if old(self).arena@.par(*element) is Some { put_before(old(self).arena@, final(self).arena@, *element, child) }
                else { appended(old(self).arena@, final(self).arena@, *prev_element, child) }), // @H14
            same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::parse_error loops=0 cells
    //@params msg
    //@spec
        ensures final(self).arena == old(self).arena, final(self).document == old(self).document, final(self).doctype == old(self).doctype, // @H14
            final(self).errors@ == old(self).errors@.push(msg), // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::set_quirks_mode loops=0 cells
    //@params _mode
    //@spec
        ensures *final(self) == *old(self), // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::append_doctype_to_document loops=0 cells
    //@params name _public_id _system_id
    //@spec
        ensures final(self).arena == old(self).arena, final(self).document == old(self).document, // @H14
            final(self).doctype is Some, final(self).doctype->0@ == name@, // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::get_template_contents loops=0 cells
    //@params target
    //@spec
        ensures r == *target, *final(self) == *old(self), // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::remove_from_parent loops=0 cells
    //@params target
    //@spec
        requires trees(old(self).arena@), old(self).arena@.has(*target)
        ensures detached(old(self).arena@, final(self).arena@, *target), same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::create_pi loops=0 cells
    //@params _target _data
    //@spec
        requires trees(old(self).arena@)
        ensures created(old(self).arena@, final(self).arena@, r, final(self).arena@.data(r)), same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
            final(self).arena@.data(r).kind is Comment, final(self).arena@.data(r).kind->Comment_0@.len() == 0, // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::same_node loops=0 cells
    //@params a b
    //@spec
        ensures r == (*a == *b), *final(self) == *old(self), // @H14
    //@end
    //@fn <TreeSink for ArenaSink>::add_attrs_if_missing loops=1 cells
    //@params target attrs
    //@pat 0 name value
    //@closure 0 ensures
        r.0 == __c0_0.name && r.1@ == __c0_0.value@
    //@closure 0 type
        (QualName, Stem<'a>)
    //@spec
        requires trees(old(self).arena@), old(self).arena@.has(*target)
        ensures told(old(self).arena@, final(self).arena@, *target), same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
            old(self).arena@.data(*target).kind is Element ==> reattr(old(self).arena@.data(*target), final(self).arena@.data(*target)) && pairs(final(self).arena@.data(*target).kind->Element_0.attrs@)
                == with_missing(pairs(old(self).arena@.data(*target).kind->Element_0.attrs@), asked(attrs@)), // @H14
            !(old(self).arena@.data(*target).kind is Element) ==> final(self).arena@.data(*target) == old(self).arena@.data(*target), // @H14
    //@start
        let ghost all = asked(attrs@);
        let ghost z = self.arena@;
    //@loop 0 owned
        yes
    //@loop 0 pre
        let ghost o = pairs(elem.attrs@);
        let ghost tag = elem.tag;
        let ghost conv = converted_attrs@;
        proof { assert(all.take(0) =~= Seq::empty()); }
    //@loop 0 head
        invariant __s0@ == conv, all.len() == conv.len(), forall|i: int| #![trigger conv[i]] 0 <= i < conv.len() ==> conv[i].0 == all[i].0 && conv[i].1@ == all[i].1, elem.tag == tag,
            pairs(elem.attrs@) == with_missing(o, all.take(__i0 as int)), // @H14
    //@loop 0 start
        let ghost w = elem.attrs@;
        proof { assert(all.take(__i0 as int).drop_last() =~= all.take(__i0 - 1)); assert(all.take(__i0 as int).last() == all[__i0 - 1]); }
    //@loop 0 end
        proof {
            let q = all[__i0 - 1].0;
            assert(add_name(pairs(w), q) == (exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == q)) by {
                if exists|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == q { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).0 == q; assert(pairs(w)[i].0 == q); }
            }
            assert(pairs(w.push((q, elem.attrs@.last().1))) =~= pairs(w).push((q, elem.attrs@.last().1@)));
            assert(pairs(elem.attrs@) == with_missing(o, all.take(__i0 as int))); // @H14
        }
    //@loop 0 after
        proof { assert(all.take(all.len() as int) =~= all); }
    //@end
    //@fn <TreeSink for ArenaSink>::reparent_children loops=1 cells
    //@params node new_parent
    //@spec
        requires trees(old(self).arena@), old(self).arena@.has(*node), old(self).arena@.has(*new_parent), !above(old(self).arena@, *node, *new_parent)
        ensures handed(old(self).arena@, final(self).arena@, *node, *new_parent, old(self).arena@.kids(*node).len() as int), // @H14
            same_sink(old(self), final(self)), trees(final(self).arena@), // @H14
    //@start
        let ghost z = self.arena@;
        proof { above_self(z, *node); }
    //@loop 0 pre
        proof { assert(z.kids(*node).skip(0) =~= z.kids(*node)); assert(z.kids(*new_parent) + z.kids(*node).take(0) =~= z.kids(*new_parent)); }
    //@loop 0 head
        invariant trees(z), trees(arena@), z.has(*node), z.has(*new_parent), *node != *new_parent, !above(z, *node, *new_parent), __s0@ == z.kids(*node),
            handed(z, arena@, *node, *new_parent, __i0 as int), // @H14
    //@loop 0 start
        let ghost a = arena@;
        proof { kid_depth(z, *node, __i0 - 1); }
    //@after detach 0
        let ghost b = arena@;
        proof { not_over(z, b, *node, *new_parent, child); }
    //@loop 0 end
        proof { hand_step(z, a, b, arena@, *node, *new_parent, __i0 - 1); } // @H14
    //@end
}

// ---- what html5ever is given, and what is kept of its answer
impl StrTendril {
    #[verifier::external_body]
    pub fn push_tendril(&mut self, o: &StrTendril) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push_slice(&mut self, o: &str) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
/// ASSUMED(html5ever): parsing drives the sink by TreeSink's rules and answers what `finish` returns;
/// the answer depends on the sink it starts with, the text, and how it is parsed.
pub struct ParseOpts { pub p: bool }
impl Default for ParseOpts { #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
pub enum How { Page, Inside(LocalName, bool) }
pub struct Parser<'a> { pub sink: ArenaSink<'a>, pub how: Ghost<How> }
pub uninterp spec fn parsed<'a>(s: ArenaSink<'a>, h: How, t: Seq<char>) -> Document<'a>;
impl<'a> Parser<'a> {
    #[verifier::external_body]
    pub fn one(self, t: StrTendril) -> (r: Document<'a>)
        requires trees(self.sink.arena@), self.sink.arena@.has(self.sink.document)
        ensures r == parsed(self.sink, self.how@, t@), trees(r.arena@), r.arena@.has(r.root)
    { unimplemented!() }
}
pub fn parse_document<'a>(sink: ArenaSink<'a>, o: ParseOpts) -> (r: Parser<'a>)
    ensures r.sink == sink, r.how@ == How::Page
{ Parser { sink, how: Ghost(How::Page) } }
pub fn parse_fragment<'a>(sink: ArenaSink<'a>, o: ParseOpts, context: QualName, l: Vec<Attribute>, scripting: bool) -> (r: Parser<'a>)
    ensures r.sink == sink, r.how@ == How::Inside(context.local, scripting)
{ Parser { sink, how: Ghost(How::Inside(context.local, scripting)) } }
impl QualName {
    pub fn new(prefix: Option<Prefix>, ns: NsName, local: LocalName) -> (r: Self) ensures r.prefix == prefix, r.ns == ns, r.local == local { QualName { prefix, ns, local } }
}
// ---- bytes and ASCII case
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub open spec fn low8(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub open spec fn low_char(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u8) + 32) as u8 as char } else { c } }
pub open spec fn space8(b: u8) -> bool { b == 9 || b == 10 || b == 12 || b == 13 || b == 32 }
pub open spec fn has_part(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p }
#[verifier::external_body]
pub struct LowText { s: String }
impl View for LowText { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl LowText {
    /// ASSUMED(std): str::contains.
    #[verifier::external_body]
    pub fn contains(&self, p: &str) -> (r: bool) ensures r == has_part(self@, p@) { unimplemented!() }
}
pub trait SpecAscii8 { spec fn s_to_ascii_lowercase(&self) -> u8; }
impl SpecAscii8 for u8 { open spec fn s_to_ascii_lowercase(&self) -> u8 { low8(*self) } }
pub trait Ascii { type Low; fn ascii_lowered(&self) -> Self::Low; }
pub trait Ascii8 { fn ascii_space(&self) -> bool; }
impl Ascii for u8 {
    type Low = u8;
    fn ascii_lowered(&self) -> (r: u8) ensures r == low8(*self) { if 65 <= *self && *self <= 90 { *self + 32 } else { *self } }
}
impl Ascii8 for u8 {
    fn ascii_space(&self) -> (r: bool) ensures r == space8(*self) { *self == 9 || *self == 10 || *self == 12 || *self == 13 || *self == 32 }
}
impl Ascii for str {
    type Low = LowText;
    /// ASSUMED(std): only the ASCII letters change.
    #[verifier::external_body]
    fn ascii_lowered(&self) -> (r: LowText) ensures r@ == self@.map_values(|c: char| low_char(c)) { unimplemented!() }
}
pub trait TextBytes { fn bytes_of_text(&self) -> &[u8]; }
impl TextBytes for str {
    /// ASSUMED(std): a text's bytes, at most isize::MAX of them.
    #[verifier::external_body]
    fn bytes_of_text(&self) -> (r: &[u8]) ensures r@ == utf8(self@), r@.len() <= isize::MAX { unimplemented!() }
}
/// ASSUMED(std): a byte string literal has the bytes it shows.
#[verifier::external_body]
pub fn byte_text(s: &'static str) -> (r: &'static [u8]) ensures r@ == Seq::new(s@.len(), |i: int| s@[i] as u8) { unimplemented!() }
pub trait Part {
    spec fn bytes8(&self) -> Seq<u8>;
    fn part(&self, a: usize, b: usize) -> (r: Vec<u8>)
        requires a <= b <= self.bytes8().len()
        ensures r@ == self.bytes8().subrange(a as int, b as int);
}
impl Part for [u8] {
    open spec fn bytes8(&self) -> Seq<u8> { self@ }
    /// ASSUMED(std): slicing panics unless the range lies inside.
    #[verifier::external_body]
    fn part(&self, a: usize, b: usize) -> (r: Vec<u8>) { unimplemented!() }
}
/// After white space only, the page starts with a doctype (in any case).
pub open spec fn doctype_at(b: Seq<u8>, k: int) -> bool {
    let w = "<!doctype"@;
    0 <= k && k + w.len() <= b.len() && (forall|j: int| 0 <= j < k ==> space8(#[trigger] b[j])) && forall|j: int| 0 <= j < w.len() ==> low8(b[k + j]) == #[trigger] w[j] as u8
}
pub open spec fn doctype_first(t: Seq<char>) -> bool { exists|k: int| #[trigger] doctype_at(utf8(t), k) }
pub open spec fn low(t: Seq<char>) -> Seq<char> { t.map_values(|c: char| low_char(c)) }
pub open spec fn structured(t: Seq<char>) -> bool { has_part(low(t), "<html"@) || has_part(low(t), "<body"@) }
/// The place where white space ends is the only one where a doctype may start.
pub proof fn doctype_facts(b: Seq<u8>, i: int)
    requires 0 <= i <= b.len(), forall|j: int| 0 <= j < i ==> space8(#[trigger] b[j]), i < b.len() ==> !space8(b[i])
    ensures "<!doctype"@.len() == 9, forall|k: int| #[trigger] doctype_at(b, k) ==> k == i,
        forall|z: Seq<(&u8, &u8)>| #![trigger z.len()] z.len() == 9 && i + 9 <= b.len()
            && (forall|j: int| 0 <= j < 9 ==> *(#[trigger] z[j]).0 == b[i + j] && *z[j].1 == "<!doctype"@[j] as u8 && low8(*z[j].0) == *z[j].1) ==> doctype_at(b, i)
{
    reveal_strlit("<!doctype");
    assert forall|z: Seq<(&u8, &u8)>| #![trigger z.len()] z.len() == 9 && i + 9 <= b.len()
            && (forall|j: int| 0 <= j < 9 ==> *(#[trigger] z[j]).0 == b[i + j] && *z[j].1 == "<!doctype"@[j] as u8 && low8(*z[j].0) == *z[j].1) implies doctype_at(b, i) by {
        assert forall|j: int| 0 <= j < 9 implies low8(b[i + j]) == #[trigger] "<!doctype"@[j] as u8 by { assert(*z[j].0 == b[i + j]); }
    }
    assert forall|k: int| #[trigger] doctype_at(b, k) implies k == i by {
        assert("<!doctype"@[0] as u8 == 60);
        assert(low8(b[k + 0]) == 60);
        assert(!space8(b[k]));
        if k < i { assert(space8(b[k])); }
        if i < k { assert(space8(b[i])); }
    }
}
//@fn has_doctype_prefix loops=1
//@params input
//@spec
    ensures r == doctype_first(input@), // @H14
//@loop 0 head
    invariant i <= bytes@.len(), bytes@ == utf8(input@), forall|j: int| 0 <= j < i ==> space8(#[trigger] bytes@[j]),
    decreases bytes@.len() - i
//@closure 0 ensures
    r == (low8(*__c0_0.0) == *__c0_0.1)
//@loop 0 after
    proof { doctype_facts(bytes@, i as int); }
    let ghost at = i as int;
//@end
//@fn has_html_structure loops=0
//@params input
//@spec
    ensures r == structured(input@), // @H14
//@end
/// The text html5ever gets for a page.
pub open spec fn fed(t: Seq<char>) -> Seq<char> {
    if doctype_first(t) { t } else if structured(t) { "<!DOCTYPE html>"@ + t } else { "<!DOCTYPE html><html><body>"@ + t + "</body></html>"@ }
}
pub open spec fn fresh(s: ArenaSink<'_>) -> bool {
    trees(s.arena@) && s.arena@.has(s.document) && s.arena@.data(s.document).kind is Document && s.arena@.kids(s.document).len() == 0 && s.arena@.par(s.document) is None && s.doctype is None
}
/// A page is parsed as a whole; the doctype is kept only if it is the page's own.
pub open spec fn page_of<'a>(t: Seq<char>, r: Document<'a>) -> bool {
    exists|s: ArenaSink<'a>| #![trigger parsed(s, How::Page, fed(t))] {
        let w = parsed(s, How::Page, fed(t));
        fresh(s) && r.arena == w.arena && r.root == w.root && r.errors == w.errors && (doctype_first(t) ==> r.doctype == w.doctype) && (!doctype_first(t) ==> r.doctype is None)
    }
}
pub open spec fn inside_of<'a>(t: Seq<char>, r: Document<'a>) -> bool {
    exists|s: ArenaSink<'a>, n: LocalName| #![trigger parsed(s, How::Inside(n, true), t)] fresh(s) && n.s() == "body"@ && r == parsed(s, How::Inside(n, true), t)
}
//@fn parse loops=0
//@params tendril
//@spec
    ensures page_of(tendril@, r), trees(r.arena@), r.arena@.has(r.root), // @H14
//@end
//@fn parse_body_fragment loops=0
//@params tendril
//@spec
    ensures inside_of(tendril@, r), trees(r.arena@), r.arena@.has(r.root), // @H14
//@end

#[verifier::rlimit(3)]
pub fn must_fail_parse(t: &StrTendril)
{ let d = parse(t); assert(false); }
#[verifier::rlimit(3)]
pub fn must_fail_before<'a>(s: &mut ArenaSink<'a>, x: NodeId, t: NodeOrText<NodeId>)
    requires trees(old(s).arena@), old(s).arena@.has(x), old(s).arena@.par(x) is Some, may_put(old(s).arena@, x, t)
{ s.append_before_sibling(&x, t); assert(false); }
#[verifier::rlimit(3)]
pub fn must_fail_hand<'a>(s: &mut ArenaSink<'a>, x: NodeId, y: NodeId)
    requires trees(old(s).arena@), old(s).arena@.has(x), old(s).arena@.has(y), !above(old(s).arena@, x, y)
{ s.reparent_children(&x, &y); assert(false); }
#[verifier::rlimit(3)]
pub fn must_fail_attrs<'a>(s: &mut ArenaSink<'a>, x: NodeId, l: Vec<Attribute>)
    requires trees(old(s).arena@), old(s).arena@.has(x)
{ s.add_attrs_if_missing(&x, l); assert(false); }

} // verus!
}
