// The document of the hotmeal crate.
pub mod html_dom {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::forest::*;
use crate::html_types::*;
verus! {

#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cow<'a, T: ?Sized> { p: core::marker::PhantomData<&'a T> }

//@item Namespace
impl Copy for Namespace {}
impl Clone for Namespace {
    fn clone(&self) -> (r: Self) ensures r == *self { *self }
}
//@item ElementData
//@item NodeKind@dom.rs
//@item NodeData@dom.rs
//@item Document

pub open spec fn is_named(m: ForestM<NodeData<'_>>, x: NodeId, t: Seq<char>) -> bool {
    m.data(x).kind is Element && m.data(x).kind->Element_0.tag.s() == t
}
/// `x` is the first node below `p` with that tag.
pub open spec fn first_named(m: ForestM<NodeData<'_>>, p: NodeId, x: NodeId, t: Seq<char>) -> bool {
    exists|i: int| 0 <= i < m.kids(p).len() && #[trigger] m.kids(p)[i] == x && is_named(m, x, t)
        && forall|j: int| 0 <= j < i ==> !is_named(m, #[trigger] m.kids(p)[j], t)
}
impl<'a> Document<'a> {
    pub open spec fn m(&self) -> ForestM<NodeData<'a>> { self.arena@ }

    //@fn Document::get loops=0
    //@params id
    //@spec
        requires self.m().has(id)
        ensures *r == self.m().data(id), // @H05 @H13
    //@end
    //@fn Document::body loops=0
    //@closure 0 requires
        self.arena@.has(*__c0_0)
    //@closure 0 ensures
        r == is_named(self.m(), *__c0_0, "body"@)
    //@spec
        requires trees(self.m()), self.m().has(self.root)
        ensures r is Some ==> first_named(self.m(), self.root, r->0, "body"@), // @H05 @H13
            r is None ==> forall|i: int| 0 <= i < self.m().kids(self.root).len() ==> !is_named(self.m(), #[trigger] self.m().kids(self.root)[i], "body"@), // @H05 @H13
    //@end
    //@fn Document::head loops=0
    //@closure 0 requires
        self.arena@.has(*__c0_0)
    //@closure 0 ensures
        r == is_named(self.m(), *__c0_0, "head"@)
    //@spec
        requires trees(self.m()), self.m().has(self.root)
        ensures r is Some ==> first_named(self.m(), self.root, r->0, "head"@), // @H05 @H13
            r is None ==> forall|i: int| 0 <= i < self.m().kids(self.root).len() ==> !is_named(self.m(), #[trigger] self.m().kids(self.root)[i], "head"@), // @H05 @H13
    //@end
}

} // verus!
}
