// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
pub mod vacuity_html {
use vstd::prelude::*;
use crate::prelude::*;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_patch::*;
verus! {

#[verifier::rlimit(3)]
pub fn must_fail_props<'a>(x: &HtmlProps<'a>, y: &HtmlProps<'a>)
    requires distinct(x.attrs@), distinct(y.attrs@), !same_list(x.attrs@, y.attrs@), x.attrs@.len() == y.attrs@.len(), x.attrs@.len() > 1
{
    let r = x.diff(y);
    assert(!all_same(r@));
    assert(false);
}
#[verifier::rlimit(3)]
pub fn must_fail_same_props<'a>(x: &HtmlProps<'a>, y: &HtmlProps<'a>)
    requires distinct(x.attrs@), same_list(x.attrs@, y.attrs@), x.attrs@.len() > 1
{
    let r = x.diff(y);
    assert(all_same(r@));
    assert(false);
}
#[verifier::rlimit(3)]
pub fn must_fail_owned<'a>(x: Patch<'a>)
    requires x is InsertElement, x->InsertElement_children@.len() > 1
{
    let r = x.into_owned();
    assert(r@ == x@);
    assert(false);
}

} // verus!
}
