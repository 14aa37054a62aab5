// H07: the live-reload server's caches and events.
pub mod string_eq {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
verus! {
/// ASSUMED(std): comparing strings compares their characters.
pub broadcast axiom fn axiom_string_ref_str(a: String, b: &str)
    ensures #![trigger a@, b@] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@), <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_str(a: String, b: &str)
    ensures #![trigger a@, b@] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@), <String as PartialEqSpec<str>>::obeys_eq_spec();
} // verus!
}

/// The functions of other crates that the server calls.
pub mod hotmeal {
use vstd::prelude::*;
use crate::prelude::*;
use crate::html_types::*;
pub use crate::html_patch::*;
verus! {
#[verifier::external_body]
pub struct StrTendril { s: String }
impl View for StrTendril { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl StrTendril {
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
}
#[verifier::external_body]
pub struct DiffError { p: () }
pub open spec fn patches_v(l: Seq<Patch<'_>>) -> Seq<PatchV> { Seq::new(l.len(), |i: int| l[i]@) }
/// The patches from one page to another (None: the diff failed).
pub uninterp spec fn patches_of(old: Seq<char>, new: Seq<char>) -> Option<Seq<PatchV>>;
/// ASSUMED(hotmeal): what a diff answers depends on the two pages only.
#[verifier::external_body]
pub fn diff_html<'a>(old: &'a StrTendril, new: &'a StrTendril) -> (r: Result<Vec<Patch<'a>>, DiffError>)
    ensures match patches_of(old@, new@) { Some(p) => r is Ok && patches_v(r->Ok_0@) == p, None => r is Err }
{ unimplemented!() }
} // verus!
}
pub mod facet_postcard {
use vstd::prelude::*;
use crate::html_patch::*;
use crate::hotmeal::*;
verus! {
#[verifier::external_body]
#[derive(Debug)]
pub struct SerializeError { p: () }
/// The bytes a list of patches is written as.
pub uninterp spec fn bytes_of(l: Seq<PatchV>) -> Seq<u8>;
/// ASSUMED(facet-postcard): writing patches succeeds and depends on what they say only.
#[verifier::external_body]
pub fn to_vec(l: &Vec<Patch<'static>>) -> (r: Result<Vec<u8>, SerializeError>) ensures r is Ok, r->Ok_0@ == bytes_of(patches_v(l@)) { unimplemented!() }
} // verus!
}

pub mod html_server {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::html_types::*;
use crate::html_patch::*;
use crate::hotmeal;
use crate::hotmeal::*;
use crate::facet_postcard;
use crate::facet_postcard::*;
verus! {
broadcast use {crate::string_eq::axiom_string_ref_str, crate::string_eq::axiom_string_str};

impl<'a> Owns for Patch<'a> {
    type Owned = Patch<'static>;
    open spec fn s_owns(self, r: Patch<'static>) -> bool { r@ == self@ }
}
/// ASSUMED(std): a hash map from strings to strings, seen as a map from texts to texts.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }
pub type Cache = Map<Seq<char>, Seq<char>>;
impl View for HashMap<String, String> { type V = Cache; uninterp spec fn view(&self) -> Cache; }
/// A stored string, as the map holds it.
pub open spec fn held(m: Cache, k: Seq<char>, r: Option<Seq<char>>) -> bool {
    r == (if m.contains_key(k) { Some(m[k]) } else { None })
}
pub open spec fn txt(r: Option<String>) -> Option<Seq<char>> { match r { Some(s) => Some(s@), None => None } }
impl HashMap<String, String> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Cache::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Cache::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.insert(k@, v@), held(old(self)@, k@, txt(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &str) -> (r: Option<&'a String>)
        ensures held(self@, k@, match r { Some(s) => Some(s@), None => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.remove(k@), held(old(self)@, k@, txt(r)) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Cache::empty() { unimplemented!() }
    /// `keys().cloned()`
    #[verifier::external_body]
    pub fn keys<'a>(&'a self) -> (r: Sq<&'a String>)
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self@.contains_key((#[trigger] r@[i])@),
            forall|k: Seq<char>| #[trigger] self@.contains_key(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k,
            forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> r@[i]@ != r@[j]@,
    { unimplemented!() }
}

impl<'a> Sq<&'a String> {
    pub fn cloned(self) -> (r: Sq<String>)
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@[i]@
    {
        let mut v: Vec<String> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant 0 <= i <= self@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] v@[j])@ == self@[j]@,
            decreases self@.len() - i
        {
            v.push(self.v[i].clone());
            i += 1;
        }
        Sq { v }
    }
}

//@item LiveReloadEvent
//@item LiveReloadServer

pub enum EventV { Reload, Patches { route: Seq<char>, blob: Seq<u8> }, HeadChanged { route: Seq<char> } }
impl View for LiveReloadEvent {
    type V = EventV;
    open spec fn view(&self) -> EventV {
        match self {
            LiveReloadEvent::Reload => EventV::Reload,
            LiveReloadEvent::Patches { route, patches_blob } => EventV::Patches { route: route@, blob: patches_blob@ },
            LiveReloadEvent::HeadChanged { route } => EventV::HeadChanged { route: route@ },
        }
    }
}
pub open spec fn ev(r: Option<LiveReloadEvent>) -> Option<EventV> { match r { Some(e) => Some(e@), None => None } }

/// What submitting a page reports, given the page cached before.
pub open spec fn report(before: Cache, route: Seq<char>, new: Seq<char>) -> Option<EventV> {
    if !before.contains_key(route) { Some(EventV::Reload) }
    else if before[route] == new { None }
    else { match patches_of(before[route], new) {
        None => Some(EventV::Reload),
        Some(p) => if p.len() == 0 { None } else { Some(EventV::Patches { route: route, blob: bytes_of(p) }) },
    } }
}
/// What was cached for a route, if anything.
pub open spec fn cached(m: Cache, route: Seq<char>) -> Option<Seq<char>> { if m.contains_key(route) { Some(m[route]) } else { None } }
/// A page's head injections changed (a route without any counts as having empty ones).
pub open spec fn head_changed(before: Cache, route: Seq<char>, h: Seq<char>) -> bool {
    if before.contains_key(route) { before[route] != h } else { h.len() != 0 }
}

pub broadcast proof fn lemma_same_patches(a: Seq<Patch<'_>>, b: Seq<Patch<'_>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i]@ == b[i]@
    ensures #[trigger] patches_v(a) == #[trigger] patches_v(b)
{ assert(patches_v(a) =~= patches_v(b)); }
/// Two lists of the same texts list the same routes.
pub open spec fn lists(r: Seq<String>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@ == k }
pub broadcast proof fn lemma_listed(a: Seq<&String>, b: Seq<String>, k: Seq<char>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i])@ == a[i]@, exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == k
    ensures #![trigger a.len(), lists(b, k)] lists(b, k)
{
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == k;
    assert(b[i]@ == k);
}
/// Submitting the page that is cached changes nothing.
pub broadcast proof fn lemma_reinsert(m: Cache, k: Seq<char>)
    requires m.contains_key(k)
    ensures #[trigger] m.insert(k, m[k]) == m
{ assert(m.insert(k, m[k]) =~= m); }

impl LiveReloadServer {
    //@fn LiveReloadServer::new loops=0
    //@spec
        ensures r.html_cache@ == Cache::empty(), r.head_cache@ == Cache::empty(), // @H07
    //@end
    //@fn LiveReloadServer::cache_html loops=0
    //@params route html
    //@spec
        ensures
            final(self).html_cache@ == old(self).html_cache@.insert(route@, html@), // @H07
            final(self).head_cache@ == old(self).head_cache@, // @H07
            txt(r) == cached(old(self).html_cache@, route@), // @H07
    //@end
    //@fn LiveReloadServer::cache_head_injections loops=0
    //@params route injections
    //@spec
        ensures
            final(self).head_cache@ == old(self).head_cache@.insert(route@, injections@), // @H07
            final(self).html_cache@ == old(self).html_cache@, // @H07
            r == head_changed(old(self).head_cache@, route@, injections@), // @H07
    //@end
    //@fn LiveReloadServer::diff_route loops=0
    //@params route new_html
    //@spec
        ensures
            final(self).html_cache@ == old(self).html_cache@.insert(route@, new_html@), // @H07
            final(self).head_cache@ == old(self).head_cache@, // @H07
            ev(r) == report(old(self).html_cache@, route@, new_html@), // @H07
    //@start
        broadcast use {lemma_reinsert, lemma_same_patches};
    //@end
    //@fn LiveReloadServer::diff_route_with_head loops=0
    //@params route new_html head_injections
    //@spec
        ensures
            final(self).html_cache@ == old(self).html_cache@.insert(route@, new_html@), // @H07
            final(self).head_cache@ == old(self).head_cache@.insert(route@, head_injections@), // @H07
            ev(r) == (if head_changed(old(self).head_cache@, route@, head_injections@) { Some(EventV::HeadChanged { route: route@ }) }
                else { report(old(self).html_cache@, route@, new_html@) }), // @H07
    //@end
    //@fn LiveReloadServer::cached_routes loops=0
    //@spec
        ensures
            forall|i: int| 0 <= i < r@.len() ==> self.html_cache@.contains_key((#[trigger] r@[i])@), // @H07
            forall|k: Seq<char>| #[trigger] self.html_cache@.contains_key(k) ==> lists(r@, k), // @H07
            forall|i: int, j: int| #![trigger r@[i], r@[j]] 0 <= i < j < r@.len() ==> r@[i]@ != r@[j]@, // @H07
    //@start
        broadcast use lemma_listed;
    //@end
    //@fn LiveReloadServer::remove_route loops=0
    //@params route
    //@spec
        ensures
            final(self).html_cache@ == old(self).html_cache@.remove(route@), // @H07
            final(self).head_cache@ == old(self).head_cache@.remove(route@), // @H07
            r == (old(self).html_cache@.contains_key(route@) || old(self).head_cache@.contains_key(route@)), // @H07
    //@end
    //@fn LiveReloadServer::clear loops=0
    //@spec
        ensures final(self).html_cache@ == Cache::empty(), final(self).head_cache@ == Cache::empty(), // @H07
    //@end
}

} // verus!
}
