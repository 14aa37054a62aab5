// The trees hotmeal hands to cinereus.
pub mod html_props {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::html_types::*;
use crate::html_dom::Namespace;
verus! {

//@item DiffError
//@item PropKey
//@item HtmlProps
//@item HtmlNodeKind
//@item NodeData@tree.rs

pub struct HtmlTreeTypes<'a>(core::marker::PhantomData<&'a ()>);

/// ASSUMED(derive): derived clones and comparisons.
impl Clone for PropKey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl PartialEq for PropKey {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl Eq for PropKey {}
impl Clone for HtmlNodeKind {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl PartialEqSpecImpl for HtmlNodeKind {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for HtmlNodeKind {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() }
}
impl Eq for HtmlNodeKind {}
impl<'a> Clone for HtmlProps<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures pairs_v(r.attrs@) == pairs_v(self.attrs@) { unimplemented!() }
}
impl<'a> HtmlProps<'a> {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.attrs@.len() == 0 { unimplemented!() }
}
pub open spec fn pairs_v(l: Seq<(QualName, Stem<'_>)>) -> Seq<(QualName, Seq<char>)> { Seq::new(l.len(), |i: int| (l[i].0, l[i].1@)) }
/// Under contract in unit_html (H04); only their types are needed here.
impl<'a> Properties for HtmlProps<'a> {
    type Key = PropKey;
    type Value = Stem<'a>;
    uninterp spec fn s_similarity(&self, other: &Self) -> f64;
    uninterp spec fn s_diff(&self, other: &Self) -> Seq<PropertyInFinalState<PropKey, Stem<'a>>>;
    open spec fn s_len(&self) -> nat { self.attrs@.len() }
    #[verifier::external_body]
    fn similarity(&self, other: &Self) -> (r: f64) { unimplemented!() }
    #[verifier::external_body]
    fn diff(&self, other: &Self) -> (r: Vec<PropertyInFinalState<PropKey, Stem<'a>>>) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) { unimplemented!() }
}
impl<'a> TreeTypes for HtmlTreeTypes<'a> {
    type Kind = HtmlNodeKind;
    type Props = HtmlProps<'a>;
    type Text = Stem<'a>;
    type TextV = Seq<char>;
    open spec fn text_v(t: &Stem<'a>) -> Seq<char> { t@ }
}

} // verus!
}
