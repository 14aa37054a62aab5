// H06: owned copies of patches.
pub mod html_patch {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::html_types::*;
use crate::html_props::*;
verus! {

//@item AttrPair
//@item NodePath
//@item NodeRef
//@item InsertContent
//@item PropChange
//@item Patch

// What a patch says, whoever owns the strings.
pub type AttrV = (QualName, Seq<char>);
pub enum ContentV { Element { tag: LocalName, attrs: Seq<AttrV>, children: Seq<ContentV> }, Text(Seq<char>), Comment(Seq<char>) }
pub type ChangeV = (PropKey, Option<Seq<char>>);
pub enum PatchV {
    InsertElement { at: NodeRef, tag: LocalName, attrs: Seq<AttrV>, children: Seq<ContentV>, detach_to_slot: Option<u32> },
    InsertText { at: NodeRef, text: Seq<char>, detach_to_slot: Option<u32> },
    InsertComment { at: NodeRef, text: Seq<char>, detach_to_slot: Option<u32> },
    Remove { node: NodeRef },
    SetText { path: NodePath, text: Seq<char> },
    SetAttribute { path: NodePath, name: QualName, value: Seq<char> },
    RemoveAttribute { path: NodePath, name: QualName },
    Move { from: NodeRef, to: NodeRef, detach_to_slot: Option<u32> },
    UpdateProps { path: NodePath, changes: Seq<ChangeV> },
    OpaqueChanged { path: NodePath, content: Seq<char> },
}
impl<'a> View for AttrPair<'a> {
    type V = AttrV;
    open spec fn view(&self) -> AttrV { (self.name, self.value@) }
}
impl<'a> View for PropChange<'a> {
    type V = ChangeV;
    open spec fn view(&self) -> ChangeV { (self.name, match self.value { Some(s) => Some(s@), None => None }) }
}
impl<'a> Owns for Stem<'a> {
    type Owned = Stem<'static>;
    open spec fn s_owns(self, r: Stem<'static>) -> bool { r@ == self@ }
}
impl<'a> Owns for AttrPair<'a> {
    type Owned = AttrPair<'static>;
    open spec fn s_owns(self, r: AttrPair<'static>) -> bool { r@ == self@ }
}
impl<'a> Owns for PropChange<'a> {
    type Owned = PropChange<'static>;
    open spec fn s_owns(self, r: PropChange<'static>) -> bool { r@ == self@ }
}
impl<'a> Owns for InsertContent<'a> {
    type Owned = InsertContent<'static>;
    open spec fn s_owns(self, r: InsertContent<'static>) -> bool { r@ == self@ }
}
pub open spec fn attrs_v(l: Seq<AttrPair<'_>>) -> Seq<AttrV> { Seq::new(l.len(), |i: int| l[i]@) }
pub open spec fn changes_v(l: Seq<PropChange<'_>>) -> Seq<ChangeV> { Seq::new(l.len(), |i: int| l[i]@) }
pub open spec fn contents_v(l: Seq<InsertContent<'_>>) -> Seq<ContentV> { Seq::new(l.len(), |i: int| l[i]@) }
pub open spec fn content_v(x: InsertContent<'_>) -> ContentV decreases x {
    match x {
        InsertContent::Element { tag, attrs, children } => ContentV::Element { tag: tag, attrs: attrs_v(attrs@),
            children: Seq::new(children@.len(), |i: int| if 0 <= i < children@.len() { content_v(children@[i]) } else { arbitrary() }) },
        InsertContent::Text(s) => ContentV::Text(s@),
        InsertContent::Comment(s) => ContentV::Comment(s@),
    }
}
impl<'a> View for InsertContent<'a> {
    type V = ContentV;
    open spec fn view(&self) -> ContentV { content_v(*self) }
}
impl<'a> View for Patch<'a> {
    type V = PatchV;
    open spec fn view(&self) -> PatchV {
        match self {
            Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => PatchV::InsertElement {
                at: *at, tag: *tag, attrs: attrs_v(attrs@), children: contents_v(children@), detach_to_slot: *detach_to_slot },
            Patch::InsertText { at, text, detach_to_slot } => PatchV::InsertText { at: *at, text: text@, detach_to_slot: *detach_to_slot },
            Patch::InsertComment { at, text, detach_to_slot } => PatchV::InsertComment { at: *at, text: text@, detach_to_slot: *detach_to_slot },
            Patch::Remove { node } => PatchV::Remove { node: *node },
            Patch::SetText { path, text } => PatchV::SetText { path: *path, text: text@ },
            Patch::SetAttribute { path, name, value } => PatchV::SetAttribute { path: *path, name: *name, value: value@ },
            Patch::RemoveAttribute { path, name } => PatchV::RemoveAttribute { path: *path, name: *name },
            Patch::Move { from, to, detach_to_slot } => PatchV::Move { from: *from, to: *to, detach_to_slot: *detach_to_slot },
            Patch::UpdateProps { path, changes } => PatchV::UpdateProps { path: *path, changes: changes_v(changes@) },
            Patch::OpaqueChanged { path, content } => PatchV::OpaqueChanged { path: *path, content: content@ },
        }
    }
}

pub broadcast proof fn lemma_attrs_v(a: Seq<AttrPair<'_>>, b: Seq<AttrPair<'_>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i]@ == b[i]@
    ensures #[trigger] attrs_v(a) == #[trigger] attrs_v(b)
{ assert(attrs_v(a) =~= attrs_v(b)); }
pub broadcast proof fn lemma_changes_v(a: Seq<PropChange<'_>>, b: Seq<PropChange<'_>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i]@ == b[i]@
    ensures #[trigger] changes_v(a) == #[trigger] changes_v(b)
{ assert(changes_v(a) =~= changes_v(b)); }
pub broadcast proof fn lemma_contents_v(a: Seq<InsertContent<'_>>, b: Seq<InsertContent<'_>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i]@ == b[i]@
    ensures #[trigger] contents_v(a) == #[trigger] contents_v(b)
{ assert(contents_v(a) =~= contents_v(b)); }
pub broadcast proof fn lemma_element_v(x: InsertContent<'_>)
    ensures x is Element ==> (#[trigger] x@) == (ContentV::Element { tag: x->tag, attrs: attrs_v(x->attrs@), children: contents_v(x->children@) })
{
    if x is Element { assert(content_v(x)->children =~= contents_v(x->children@)); }
}
/// Nested contents are smaller.
pub proof fn lemma_nested(x: InsertContent<'_>)
    ensures x is Element ==> forall|i: int| 0 <= i < x->children@.len() ==> decreases_to!(x => #[trigger] x->children@[i])
{}
} // verus!
}

pub mod html_owned {
use vstd::prelude::*;
use crate::prelude::*;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_patch::*;
verus! {
broadcast use {lemma_attrs_v, lemma_changes_v, lemma_contents_v, lemma_element_v};

impl<'a> AttrPair<'a> {
    //@fn AttrPair::into_owned loops=0
    //@spec
        ensures r@ == self@, // @H06
    //@end
}
impl<'a> PropChange<'a> {
    //@fn PropChange::into_owned loops=0
    //@spec
        ensures r@ == self@, // @H06
    //@end
}
impl<'a> InsertContent<'a> {
    //@fn InsertContent::into_owned loops=0
    //@spec
        ensures r@ == self@, // @H06
        decreases self,
    //@start
        proof { lemma_nested(self); }
    //@closure 1 requires
        decreases_to!(self => __c1_0)
    //@end
}
impl<'a> Patch<'a> {
    //@fn Patch::into_owned loops=0
    //@spec
        ensures r@ == self@, // @H06
    //@end
}

} // verus!
}
