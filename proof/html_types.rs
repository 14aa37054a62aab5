// Stand-ins for the dependencies of the hotmeal crate: html5ever's interned names, CompactString.
pub mod html_types {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
verus! {

/// ASSUMED(html5ever): interned names are values with structural equality.
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub struct Prefix { pub id: u64 }
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub struct LocalName { pub id: u64 }
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub struct NsName { pub id: u64 }
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub struct QualName { pub prefix: Option<Prefix>, pub ns: NsName, pub local: LocalName }
impl PartialEqSpecImpl for QualName {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
}

/// ASSUMED(html5ever): the text of a name.
pub trait Named {
    spec fn s(&self) -> Seq<char>;
}
impl LocalName { pub open spec fn s_as_ref(&self) -> Seq<char> { self.s() } }
impl Named for LocalName { uninterp spec fn s(&self) -> Seq<char>; }
impl Named for Prefix { uninterp spec fn s(&self) -> Seq<char>; }
pub trait AsRefStr {
    spec fn text(&self) -> Seq<char>;
    fn as_ref(&self) -> (r: &str) ensures r@ == self.text();
}
impl AsRefStr for LocalName {
    open spec fn text(&self) -> Seq<char> { self.s() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}
impl AsRefStr for Prefix {
    open spec fn text(&self) -> Seq<char> { self.s() }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}

/// ASSUMED(smallvec): a vector.
pub trait SvItem { type Item; }
impl SvItem for [u32; 16] { type Item = u32; }
pub type SmallVec<A> = Vec<<A as SvItem>::Item>;

/// ASSUMED(compact_str): a string with value semantics.
#[verifier::external_body]
pub struct CompactString { s: String }
impl View for CompactString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl CompactString {
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self@ { &self.s }
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Self) ensures r@ == s@ { CompactString { s: s.to_string() } }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<char>::empty() { CompactString { s: String::new() } }
    #[verifier::external_body]
    pub fn from(s: String) -> (r: Self) ensures r@ == s@ { CompactString { s } }
    #[verifier::external_body]
    pub fn push_str(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { self.s.push_str(t); }
}
impl Clone for CompactString {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { CompactString { s: self.s.clone() } }
}

//@item Stem

impl<'a> View for Stem<'a> {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { match self { Stem::Borrowed(s) => s@, Stem::Owned(s) => s@ } }
}
impl<'a> Stem<'a> {
    //@fn Stem::as_str loops=0
    //@spec
        ensures r@ == self@, // @H04 @H05 @H06
    //@end
    //@fn Stem::is_empty loops=0
    //@spec
        ensures r == (self@.len() == 0),
    //@end
    //@fn Stem::into_owned loops=0
    //@spec
        ensures r@ == self@, // @H06
    //@end
}
impl<'a> AsRefStr for Stem<'a> {
    open spec fn text(&self) -> Seq<char> { self@ }
    //@fn <AsRef<str> for Stem>::as_ref loops=0
    //@spec
    //@end
}
impl<'a> PartialEqSpecImpl for Stem<'a> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self@ == other@ }
}
impl<'a> PartialEq for Stem<'a> {
    //@fn <PartialEq for Stem>::eq loops=0
    //@spec
        ensures r == (self@ == other@), // @H04
    //@end
}
impl<'a> Eq for Stem<'a> {}
impl<'a> Stem<'a> {
    //@fn Stem::new loops=0
    //@spec
        ensures r@ == Seq::<char>::empty(), // @H02 @H08
    //@end
}
impl<'a> OrDefault<Stem<'a>> for Option<Stem<'a>> {
    open spec fn or_default_ok(self, r: Stem<'a>) -> bool { match self { Some(x) => r == x, None => r@ == Seq::<char>::empty() } }
    fn or_default_value(self) -> (r: Stem<'a>) { match self { Some(x) => x, None => Stem::default() } }
}
impl<'a> Stem<'a> {
    //@fn <Default for Stem>::default loops=0
    //@spec
        ensures r@ == Seq::<char>::empty(), // @H08
    //@end
}
impl LocalName {
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: Self) ensures r.s() == s@ { unimplemented!() }
}
/// ASSUMED(derive): the derived clone copies the variant it finds.
impl<'a> Clone for Stem<'a> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { match self { Stem::Borrowed(s) => Stem::Borrowed(s), Stem::Owned(s) => Stem::Owned(s.clone()) } }
}

} // verus!
}
