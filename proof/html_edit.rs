// H13: the document's own editing and navigation methods.
pub mod html_edit {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use crate::prelude::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::html_types::*;
use crate::html_dom::*;
use crate::html_dom::{NodeData, NodeKind};
use crate::html_props::*;
use crate::html_patch::*;
use crate::html_apply::*;
verus! {

/// ASSUMED(std): converting a value into a name or text is a function of the value.
pub trait Into<T>: Sized {
    spec fn s_into(self) -> T;
    fn into(self) -> (r: T) ensures r == self.s_into();
}
impl<'a> FromSpecImpl<&'a str> for Stem<'a> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &'a str) -> Self { arbitrary() } }
impl<'a> From<&'a str> for Stem<'a> {
    //@fn <From<&'astr> for Stem>::from loops=0
    //@spec
        ensures r@ == s@, // @H13
    //@end
}
impl<'a> FromSpecImpl<String> for Stem<'a> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: String) -> Self { arbitrary() } }
impl<'a> From<String> for Stem<'a> {
    //@fn <From<String> for Stem>::from loops=0
    //@spec
        ensures r@ == s@, // @H13
    //@end
}
impl<'a> FromSpecImpl<CompactString> for Stem<'a> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: CompactString) -> Self { arbitrary() } }
impl<'a> From<CompactString> for Stem<'a> {
    //@fn <From<CompactString> for Stem>::from loops=0
    //@spec
        ensures r@ == s@, // @H13
    //@end
}
impl<'a> FromSpecImpl<StrTendril> for Stem<'a> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: StrTendril) -> Self { arbitrary() } }
impl<'a> From<StrTendril> for Stem<'a> {
    //@fn <From<StrTendril> for Stem>::from loops=0
    //@spec
        ensures r@ == t@, // @H13
    //@end
}
impl<'a> FromSpecImpl<&StrTendril> for Stem<'a> { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(v: &StrTendril) -> Self { arbitrary() } }
impl<'a> From<&StrTendril> for Stem<'a> {
    //@fn <From<&StrTendril> for Stem>::from loops=0
    //@spec
        ensures r@ == t@, // @H13
    //@end
}
/// ASSUMED(std): `Display` of a text writes the text.
pub trait Displayed {
    fn displayed(&self) -> (r: &str);
}
impl Displayed for str {
    fn displayed(&self) -> (r: &str) ensures r@ == self@ { self }
}
/// ASSUMED(compact_str): formatting two texts one after the other joins them.
#[verifier::external_body]
pub fn joined(a: &str, b: &str) -> (r: CompactString) ensures r@ == a@ + b@ { unimplemented!() }
impl<'a> Stem<'a> {
    //@fn Stem::push_str loops=0
    //@params s
    //@spec
        ensures final(self)@ == old(self)@ + s@, // @H13
    //@end
    //@fn Stem::push_tendril loops=0
    //@params t
    //@spec
        ensures final(self)@ == old(self)@ + t@, // @H13
    //@end
}
/// A fresh node that says `d`, nowhere yet.
pub open spec fn bare_element<'a>(d: NodeData<'a>, tag: LocalName) -> bool {
    d.kind is Element && d.kind->Element_0.tag == tag && d.kind->Element_0.attrs@.len() == 0 && d.ns is Html
}
/// `n` is what follows `p` at place `k`; the others keep their order.
pub open spec fn docked<'a>(a: DocM<'a>, b: DocM<'a>, p: NodeId, k: int, n: NodeId) -> bool { inserted(a, b, p, k, n) }

impl<'a> Document<'a> {
    //@fn Document::new loops=0
    //@spec
        ensures trees(r.m()), r.m().has(r.root), r.m().par(r.root) is None, // @H13
            bare_element(r.m().data(r.root), r.m().data(r.root).kind->Element_0.tag), is_named(r.m(), r.root, "html"@), // @H13
            r.m().kids(r.root).len() == 2, // @H13
            is_named(r.m(), r.m().kids(r.root)[0], "head"@), bare_element(r.m().data(r.m().kids(r.root)[0]), r.m().data(r.m().kids(r.root)[0]).kind->Element_0.tag), // @H13
            is_named(r.m(), r.m().kids(r.root)[1], "body"@), bare_element(r.m().data(r.m().kids(r.root)[1]), r.m().data(r.m().kids(r.root)[1]).kind->Element_0.tag), // @H13
            r.m().kids(r.m().kids(r.root)[0]).len() == 0, r.m().kids(r.m().kids(r.root)[1]).len() == 0, // @H13
            r.doctype is None, // @H13
    //@after new_node 0
        let ghost a0 = arena@;
    //@before append 0
        proof { new_above(a0, arena@, head, arena@.data(head), html); no_kid(arena@, html, head); assert(a0.kids(html).len() == 0); }
    //@after append 0
        let ghost a2 = arena@;
        proof { assert(a2.kids(html) =~= seq![head]); }
    //@before append 1
        proof { new_above(a2, arena@, body, arena@.data(body), html); no_kid(arena@, html, body); }
    //@tail
        proof { assert(arena@.kids(html) =~= seq![head, body]); }
    //@end
    //@fn Document::get_mut loops=0
    //@params id
    //@spec
        requires old(self).m().has(id), trees(old(self).m())
        ensures *r == old(self).m().data(id), retold(old(self).m(), final(self).m(), id, *final(r)), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::children loops=0
    //@params id
    //@spec
        requires self.m().has(id)
        ensures r@ == self.m().kids(id), // @H13
    //@end
    //@fn Document::create_element loops=0
    //@params tag
    //@spec
        requires trees(old(self).m())
        ensures created(old(self).m(), final(self).m(), r, final(self).m().data(r)), bare_element(final(self).m().data(r), tag.s_into()), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::create_text loops=0
    //@params text
    //@spec
        requires trees(old(self).m())
        ensures created(old(self).m(), final(self).m(), r, final(self).m().data(r)), // @H13
            final(self).m().data(r).kind is Text, final(self).m().data(r).kind->Text_0@ == text.s_into()@, // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::create_comment loops=0
    //@params text
    //@spec
        requires trees(old(self).m())
        ensures created(old(self).m(), final(self).m(), r, final(self).m().data(r)), // @H13
            final(self).m().data(r).kind is Comment, final(self).m().data(r).kind->Comment_0@ == text.s_into()@, // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::append_child loops=0
    //@params parent child
    //@spec
        requires trees(old(self).m()), old(self).m().has(parent), old(self).m().has(child), !above(old(self).m(), child, parent)
        ensures docked(old(self).m(), final(self).m(), parent, without(old(self).m().kids(parent), child).len() as int, child), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::insert_before loops=0
    //@params sibling new_node
    //@spec
        requires trees(old(self).m()), old(self).m().has(sibling), old(self).m().has(new_node), !above(old(self).m(), new_node, sibling),
            old(self).m().par(sibling) is Some
        ensures docked(old(self).m(), final(self).m(), old(self).m().par(sibling)->0,
                without(old(self).m().kids(old(self).m().par(sibling)->0), new_node).index_of(sibling), new_node), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::insert_after loops=0
    //@params sibling new_node
    //@spec
        requires trees(old(self).m()), old(self).m().has(sibling), old(self).m().has(new_node), !above(old(self).m(), new_node, sibling),
            old(self).m().par(sibling) is Some
        ensures docked(old(self).m(), final(self).m(), old(self).m().par(sibling)->0,
                without(old(self).m().kids(old(self).m().par(sibling)->0), new_node).index_of(sibling) + 1, new_node), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::remove loops=0
    //@params node
    //@spec
        requires trees(old(self).m()), old(self).m().has(node)
        ensures detached(old(self).m(), final(self).m(), node), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::set_attr loops=0
    //@params element name value
    //@spec
        requires trees(old(self).m()), old(self).m().has(element)
        ensures told(old(self).m(), final(self).m(), element), // @H13
            old(self).m().data(element).kind is Element ==> reattr(old(self).m().data(element), final(self).m().data(element))
                && attr_set(old(self).m().data(element).kind->Element_0.attrs@, final(self).m().data(element).kind->Element_0.attrs@, name, value.s_into()@), // @H13
            !(old(self).m().data(element).kind is Element) ==> final(self).m().data(element) == old(self).m().data(element), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::remove_attr loops=0
    //@params element name
    //@spec
        requires trees(old(self).m()), old(self).m().has(element)
        ensures told(old(self).m(), final(self).m(), element), // @H13
            old(self).m().data(element).kind is Element ==> attr_gone(old(self).m().data(element), final(self).m().data(element), *name), // @H13
            !(old(self).m().data(element).kind is Element) ==> final(self).m().data(element) == old(self).m().data(element), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::set_text loops=0
    //@params node text
    //@spec
        requires trees(old(self).m()), old(self).m().has(node)
        ensures told(old(self).m(), final(self).m(), node), // @H13
            old(self).m().data(node).kind is Text ==> text_set(old(self).m().data(node), final(self).m().data(node), text.s_into()@), // @H13
            !(old(self).m().data(node).kind is Text) ==> final(self).m().data(node) == old(self).m().data(node), // @H13
            trees(final(self).m()), same_doc(old(self), final(self)), // @H13
    //@end
    //@fn Document::parent loops=0
    //@params node
    //@spec
        requires self.m().has(node)
        ensures r == self.m().par(node), // @H13
    //@end
    //@fn Document::first_child loops=0
    //@params node
    //@spec
        requires self.m().has(node)
        ensures r == (if self.m().kids(node).len() > 0 { Some(self.m().kids(node)[0]) } else { None }), // @H13
    //@end
    //@fn Document::last_child loops=0
    //@params node
    //@spec
        requires self.m().has(node)
        ensures r == (if self.m().kids(node).len() > 0 { Some(self.m().kids(node).last()) } else { None }), // @H13
    //@end
    //@fn Document::next_sibling loops=0
    //@params node
    //@spec
        requires self.m().has(node), self.m().par(node) is Some
        ensures r == after_in(self.m().kids(self.m().par(node)->0), node), // @H13
    //@end
    //@fn Document::prev_sibling loops=0
    //@params node
    //@spec
        requires self.m().has(node), self.m().par(node) is Some
        ensures r == before_in(self.m().kids(self.m().par(node)->0), node), // @H13
    //@end
    //@fn Document::child_count loops=0
    //@params node
    //@spec
        requires self.m().has(node)
        ensures r == self.m().kids(node).len(), // @H13
    //@end
}

pub fn must_fail_new<'a>() { let d = Document::new(); assert(false); }
#[verifier::rlimit(3)]
pub fn must_fail_set_attr<'a>(d: &mut Document<'a>, x: NodeId, n: QualName, v: Stem<'a>)
    requires trees(old(d).m()), old(d).m().has(x), old(d).m().data(x).kind is Element
{ d.remove_attr(x, &n); assert(false); }
#[verifier::rlimit(3)]
pub fn must_fail_place<'a>(d: &mut Document<'a>, x: NodeId, y: NodeId)
    requires trees(old(d).m()), old(d).m().has(x), old(d).m().has(y), !above(old(d).m(), y, x), old(d).m().par(x) is Some
{ d.insert_after(x, y); assert(false); }

} // verus!
}
