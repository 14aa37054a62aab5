// Stand-ins for the standard library, indextree and rapidhash. Everything marked
// `external_body` / `assume_specification` here is an ASSUMED contract on a dependency and is
// listed in the evidence; everything else is verified.
pub mod prelude {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
pub use core::cmp::Ordering;
verus! {

/// indextree::NodeId: a 1-based index and a stamp; equality is structural (derived).
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub struct NodeId { pub index1: usize, pub stamp: i16 }

impl NodeId {
    /// What `usize::from(id)` returns.
    pub uninterp spec fn ix(self) -> int;
}

/// ASSUMED(indextree): `usize::from(id)` is a 0-based index below usize::MAX (the field is a
/// NonZeroUsize holding index+1).
impl From<NodeId> for usize {
    #[verifier::external_body]
    fn from(id: NodeId) -> (r: usize)
        ensures r as int == id.ix(), 0 <= r < usize::MAX
    { id.index1 - 1 }
}

/// The hash of a subtree (u64 newtype, derived equality).
#[derive(Structural, Clone, Copy, PartialEq, Eq)]
pub struct NodeHash(pub u64);

/// Equality at one type.
pub open spec fn is_val<T>(a: T, b: T) -> bool { a == b }

pub open spec fn pair_0<A, B>(r: (A, B)) -> A { r.0 }
pub open spec fn pair_1<A, B>(r: (A, B)) -> B { r.1 }
/// What `clone` promises.
pub trait SCloned: Sized {
    spec fn s_cloned(&self, r: Self) -> bool;
}
impl<T: Clone> SCloned for T {
    open spec fn s_cloned(&self, r: Self) -> bool { call_ensures(T::clone, (self,), r) }
}

/// What `into_owned` keeps.
pub trait Owns: Sized {
    type Owned;
    spec fn s_owns(self, r: Self::Owned) -> bool;
}

// ---------------------------------------------------------------- comparisons
pub open spec fn s_lt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Less) }
pub open spec fn s_gt<T: PartialOrd>(a: T, b: T) -> bool { a.partial_cmp_spec(&b) == Some(Ordering::Greater) }
pub open spec fn s_ge<T: PartialOrd>(a: T, b: T) -> bool {
    a.partial_cmp_spec(&b) == Some(Ordering::Greater) || a.partial_cmp_spec(&b) == Some(Ordering::Equal)
}
pub open spec fn s_le<T: PartialOrd>(a: T, b: T) -> bool {
    a.partial_cmp_spec(&b) == Some(Ordering::Less) || a.partial_cmp_spec(&b) == Some(Ordering::Equal)
}
/// ASSUMED(core): f64 comparison operators agree with one partial order (`partial_cmp`).
#[verifier::external_body]
pub proof fn f64_cmp() ensures <f64 as PartialOrdSpec>::obeys_partial_cmp_spec() {}

/// ASSUMED(core): float arithmetic does not panic; its value is left uninterpreted.
#[verifier::external_body] pub fn as_f64(a: usize) -> f64 { a as f64 }
#[verifier::external_body] pub fn f64_add(a: f64, b: f64) -> f64 { a + b }
#[verifier::external_body] pub fn f64_sub(a: f64, b: f64) -> f64 { a - b }
#[verifier::external_body] pub fn f64_mul(a: f64, b: f64) -> f64 { a * b }
#[verifier::external_body] pub fn f64_div(a: f64, b: f64) -> f64 { a / b }

// ---------------------------------------------------------------- Option helpers missing in vstd
/// ASSUMED(core): documented behaviour.
pub assume_specification<T>[ Option::<Option<T>>::flatten ](o: Option<Option<T>>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => x, None => None });
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });



#[verifier::external_body]
pub fn vec_from_elem<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ vec![x; n] }

// ---------------------------------------------------------------- eager sequences
/// Every iterator of the code becomes this sequence type (laziness is dropped: the closures
/// are pure). All adaptors below are verified, not assumed.
pub struct Sq<T> { pub v: Vec<T> }

/// `y` was made of one of `s`.
pub open spec fn kept_from<T, U, F: Fn(T) -> Option<U>>(s: Seq<T>, f: F, y: U) -> bool {
    exists|i: int| 0 <= i < s.len() && call_ensures(f, (#[trigger] s[i],), Some(y))
}
impl<T> View for Sq<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { self.v@ }
}

pub trait FromSq<T>: Sized {
    spec fn from_ok(s: Seq<T>, r: Self) -> bool;
    fn from_sq(s: Sq<T>) -> (r: Self) ensures Self::from_ok(s@, r);
}
impl<T> FromSq<T> for Vec<T> {
    open spec fn from_ok(s: Seq<T>, r: Self) -> bool { r@ == s }
    fn from_sq(s: Sq<T>) -> (r: Self) { s.v }
}
impl FromSq<NodeId> for HashSet<NodeId> {
    open spec fn from_ok(s: Seq<NodeId>, r: Self) -> bool { forall|x: NodeId| #[trigger] r@.contains(x) <==> s.contains(x) }
    fn from_sq(s: Sq<NodeId>) -> (r: Self) {
        let mut h: HashSet<NodeId> = HashSet::new();
        let mut i: usize = 0;
        while i < s.v.len()
            invariant i <= s@.len(), forall|x: NodeId| #[trigger] h@.contains(x) <==> exists|j: int| 0 <= j < i && #[trigger] s@[j] == x
            decreases s@.len() - i
        {
            h.insert(s.v[i]);
            i += 1;
        }
        h
    }
}

pub trait IntoSq<T>: Sized {
    /// The iterator is in a state its own code keeps.
    spec fn sq_ok(self) -> bool;
    /// Everything the iterator still yields.
    spec fn sq_of(self) -> Seq<T>;
    fn into_sq(self) -> (r: Sq<T>) requires self.sq_ok() ensures r@ == self.sq_of();
}
impl<T> IntoSq<T> for Sq<T> {
    open spec fn sq_ok(self) -> bool { true }
    open spec fn sq_of(self) -> Seq<T> { self@ }
    fn into_sq(self) -> (r: Sq<T>) { self }
}
impl<T> IntoSq<T> for Vec<T> {
    open spec fn sq_ok(self) -> bool { true }
    open spec fn sq_of(self) -> Seq<T> { self@ }
    fn into_sq(self) -> (r: Sq<T>) { Sq { v: self } }
}

impl<'a, T> IntoSq<&'a T> for &'a Vec<T> {
    open spec fn sq_ok(self) -> bool { true }
    open spec fn sq_of(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn into_sq(self) -> (r: Sq<&'a T>) {
        let r = self.iter();
        proof { assert(r@ =~= Seq::new(self@.len(), |i: int| &self@[i])); }
        r
    }
}

impl<'a, T> IntoSq<&'a T> for &'a [T] {
    open spec fn sq_ok(self) -> bool { true }
    open spec fn sq_of(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn into_sq(self) -> (r: Sq<&'a T>) {
        let mut v: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] v@[j]) == self@[j]
            decreases self@.len() - i
        { v.push(&self[i]); i += 1; }
        proof { assert(v@ =~= Seq::new(self@.len(), |i: int| &self@[i])); }
        Sq { v }
    }
}
impl IntoSq<usize> for core::ops::Range<usize> {
    open spec fn sq_ok(self) -> bool { true }
    open spec fn sq_of(self) -> Seq<usize> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) }
    fn into_sq(self) -> (r: Sq<usize>) {
        let mut v: Vec<usize> = Vec::new();
        let mut i: usize = self.start;
        while i < self.end
            invariant self.start <= i, self.start <= self.end ==> i <= self.end && v@.len() == i - self.start, self.start > self.end ==> v@.len() == 0,
                forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j] == (self.start + j) as usize
            decreases self.end - i
        { v.push(i); i += 1; }
        proof { assert(v@ =~= self.sq_of()); }
        Sq { v }
    }
}

/// `v.iter_mut().find(f)`
pub fn vec_find_mut<'a, T, F: Fn(&T) -> bool>(v: &'a mut Vec<T>, f: F) -> (r: Option<&'a mut T>)
    requires forall|x: T| #[trigger] call_requires(f, (&x,)),
    ensures
        r is None ==> final(v)@ == old(v)@ && forall|j: int| 0 <= j < old(v)@.len() ==> call_ensures(f, (&#[trigger] old(v)@[j],), false),
        r is Some ==> exists|i: int| 0 <= i < old(v)@.len() && #[trigger] old(v)@[i] == *r->0 && call_ensures(f, (&old(v)@[i],), true)
            && (forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] old(v)@[j],), false))
            && final(v)@ == old(v)@.update(i, *final(r->0)),
{
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), v@ == old(v)@,
            forall|x: T| #[trigger] call_requires(f, (&x,)),
            forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] v@[j],), false),
        decreases v@.len() - i
    {
        if f(&v[i]) { return Some(&mut v[i]); }
        i += 1;
    }
    None
}
pub proof fn filter_push<T>(s: Seq<T>, x: T, p: spec_fn(T) -> bool)
    ensures s.push(x).filter(p) == (if p(x) { s.filter(p).push(x) } else { s.filter(p) })
{
    reveal(Seq::filter);
    assert(s.push(x).drop_last() =~= s);
}
/// `v.retain(f)`
pub fn vec_retain<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: T| #[trigger] call_requires(f, (&x,)),
    ensures forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)) ==> final(v)@ == #[trigger] old(v)@.filter(p),
{
    let mut i: usize = 0;
    let ghost mut n: int = 0;
    while i < v.len()
        invariant 0 <= n <= old(v)@.len(), v@.len() - i == old(v)@.len() - n, i <= v@.len(), i <= n,
            v@.skip(i as int) == old(v)@.skip(n),
            forall|x: T| #[trigger] call_requires(f, (&x,)),
            forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)) ==> v@.take(i as int) == #[trigger] old(v)@.take(n).filter(p),
        decreases v@.len() - i
    {
        let ghost w = v@;
        let keep = f(&v[i]);
        proof {
            assert(w.skip(i as int)[0] == old(v)@.skip(n)[0]);
            assert(old(v)@.take(n + 1) =~= old(v)@.take(n).push(old(v)@[n]));
        }
        if keep { i += 1; } else { let _ = v.remove(i); }
        proof {
            assert(v@.skip(i as int) =~= old(v)@.skip(n + 1)) by {
                assert forall|j: int| 0 <= j < old(v)@.len() - n - 1 implies v@.skip(i as int)[j] == old(v)@.skip(n + 1)[j] by {
                    assert(w.skip(i as int - (if keep { 1int } else { 0 }))[j + 1] == old(v)@.skip(n)[j + 1]);
                }
            }
            assert forall|p: spec_fn(T) -> bool| (forall|x: T, b: bool| #[trigger] call_ensures(f, (&x,), b) ==> b == p(x)) implies v@.take(i as int) == #[trigger] old(v)@.take(n + 1).filter(p) by {
                let o = old(v)@.take(n);
                filter_push(o, old(v)@[n], p);
                assert(call_ensures(f, (&old(v)@[n],), keep));
                assert(keep == p(old(v)@[n]));
                if keep { assert(w.take(i - 1) == o.filter(p)); assert(v@.take(i as int) =~= w.take(i - 1).push(old(v)@[n])); }
                else { assert(w.take(i as int) == o.filter(p)); assert(v@.take(i as int) =~= w.take(i as int)); }
            }
            n = n + 1;
        }
    }
    proof {
        assert(old(v)@.take(n) =~= old(v)@);
        assert(v@.take(i as int) =~= v@);
    }
}
pub fn take<T>(v: &mut Vec<T>) -> (r: Vec<T>)
    ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty()
{
    let mut r: Vec<T> = Vec::new();
    core::mem::swap(v, &mut r);
    r
}
/// ASSUMED(core): formatting returns some string.
#[verifier::external_body]
pub fn some_string() -> (r: String) { String::new() }
/// `unwrap_or_default`
pub trait OrDefault<T> {
    spec fn or_default_ok(self, r: T) -> bool;
    fn or_default_value(self) -> (r: T) ensures self.or_default_ok(r);
}
impl OrDefault<NodeHash> for Option<NodeHash> {
    open spec fn or_default_ok(self, r: NodeHash) -> bool { match self { Some(x) => r == x, None => r.0 == 0 } }
    fn or_default_value(self) -> (r: NodeHash) { match self { Some(x) => x, None => NodeHash(0) } }
}
impl<T> OrDefault<Vec<T>> for Option<Vec<T>> {
    open spec fn or_default_ok(self, r: Vec<T>) -> bool { match self { Some(x) => r == x, None => r@ == Seq::<T>::empty() } }
    fn or_default_value(self) -> (r: Vec<T>) { match self { Some(x) => x, None => Vec::new() } }
}

/// `contains` of a vector of values with a specified equality.
pub trait VecEq<T: PartialEq> {
    spec fn s_contains(&self, x: &T) -> bool;
    fn contains(&self, x: &T) -> (r: bool)
        ensures T::obeys_eq_spec() ==> r == self.s_contains(x);
}
impl<T: PartialEq> VecEq<T> for Vec<T> {
    open spec fn s_contains(&self, x: &T) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).eq_spec(x) }
    fn contains(&self, x: &T) -> (r: bool) {
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), T::obeys_eq_spec() ==> forall|j: int| 0 <= j < i ==> !(#[trigger] self@[j]).eq_spec(x)
            decreases self@.len() - i
        {
            if self[i] == *x { return true; }
            i += 1;
        }
        false
    }
}

pub trait VecExt<T> {
    spec fn sv(&self) -> Seq<T>;
    fn iter<'a>(&'a self) -> (r: Sq<&'a T>)
        ensures r@.len() == self.sv().len(),
            forall|i: int| #![trigger r@[i]] #![trigger self.sv()[i]] 0 <= i < r@.len() ==> *r@[i] == self.sv()[i];
    fn first<'a>(&'a self) -> (r: Option<&'a T>)
        ensures r is Some <==> self.sv().len() > 0, r is Some ==> *r->0 == self.sv()[0];
}
impl<T> VecExt<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    fn iter<'a>(&'a self) -> (r: Sq<&'a T>) {
        let mut v: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), v@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] v@[j]) == self@[j]
            decreases self@.len() - i
        { v.push(&self[i]); i += 1; }
        Sq { v }
    }
    fn first<'a>(&'a self) -> (r: Option<&'a T>) {
        if self.len() > 0 { Some(&self[0]) } else { None }
    }
}

impl<T> Sq<T> {
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn count(self) -> (r: usize) ensures r == self@.len() { self.v.len() }
    pub fn at(&self, i: usize) -> (r: T) where T: Copy
        requires i < self@.len() ensures r == self@[i as int]
    { self.v[i] }
    /// ASSUMED(core): an iterator over owned values hands out each of them (the extracted loops
    /// ask for every index once).
    #[verifier::external_body]
    pub fn at_owned(&self, i: usize) -> (r: T)
        requires i < self@.len() ensures r == self@[i as int]
    { unimplemented!() }
    pub fn collect<C: FromSq<T>>(self) -> (r: C) ensures C::from_ok(self@, r) { C::from_sq(self) }

    pub fn any<F: Fn(T) -> bool>(self, f: F) -> (r: bool) where T: Copy
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), true),
            !r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
    {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(),
                forall|j: int| 0 <= j < self@.len() ==> call_requires(f, (#[trigger] self@[j],)),
                forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), false),
            decreases self@.len() - i
        {
            if f(self.v[i]) { return true; }
            i += 1;
        }
        false
    }

    pub fn all<F: Fn(T) -> bool>(self, f: F) -> (r: bool) where T: Copy
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures !r ==> exists|i: int| 0 <= i < self@.len() && call_ensures(f, (#[trigger] self@[i],), false),
            r ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), true),
    {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(),
                forall|j: int| 0 <= j < self@.len() ==> call_requires(f, (#[trigger] self@[j],)),
                forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), true),
            decreases self@.len() - i
        {
            if !f(self.v[i]) { return false; }
            i += 1;
        }
        true
    }

    /// First element accepted by `f`.
    pub fn find<F: Fn(&T) -> bool>(self, f: F) -> (r: Option<T>) where T: Copy
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures
            r is Some ==> exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == r->0
                && call_ensures(f, (&self@[i],), true)
                && forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self@[j],), false),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (&#[trigger] self@[i],), false),
    {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(),
                forall|j: int| 0 <= j < self@.len() ==> call_requires(f, (&#[trigger] self@[j],)),
                forall|j: int| 0 <= j < i ==> call_ensures(f, (&#[trigger] self@[j],), false),
            decreases self@.len() - i
        {
            if f(&self.v[i]) { return Some(self.v[i]); }
            i += 1;
        }
        None
    }

    /// Index of the first element accepted by `f`.
    pub fn position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>) where T: Copy
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            r is Some ==> 0 <= r->0 < self@.len() && call_ensures(f, (self@[r->0 as int],), true)
                && forall|j: int| 0 <= j < r->0 ==> call_ensures(f, (#[trigger] self@[j],), false),
            r is None ==> forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (#[trigger] self@[i],), false),
    {
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(),
                forall|j: int| 0 <= j < self@.len() ==> call_requires(f, (#[trigger] self@[j],)),
                forall|j: int| 0 <= j < i ==> call_ensures(f, (#[trigger] self@[j],), false),
            decreases self@.len() - i
        {
            if f(self.v[i]) { return Some(i); }
            i += 1;
        }
        None
    }

    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Sq<T>) where T: Copy
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (&#[trigger] self@[i],)),
        ensures
            r@.len() <= self@.len(),
            forall|k: int| 0 <= k < r@.len() ==> self@.contains(#[trigger] r@[k]) && call_ensures(f, (&r@[k],), true),
            forall|i: int| 0 <= i < self@.len() ==> r@.contains(#[trigger] self@[i]) || call_ensures(f, (&self@[i],), false),
            self@.no_duplicates() ==> r@.no_duplicates(),
            (forall|i: int| 0 <= i < self@.len() ==> !call_ensures(f, (&#[trigger] self@[i],), false)) ==> r@ == self@,
    {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), v@.len() <= i,
                (forall|j: int| 0 <= j < i ==> !call_ensures(f, (&#[trigger] self@[j],), false)) ==> v@ == self@.take(i as int),
                forall|j: int| 0 <= j < self@.len() ==> call_requires(f, (&#[trigger] self@[j],)),
                forall|k: int| 0 <= k < v@.len() ==> (exists|j: int| 0 <= j < i && self@[j] == #[trigger] v@[k]) && call_ensures(f, (&v@[k],), true),
                forall|j: int| 0 <= j < i ==> v@.contains(#[trigger] self@[j]) || call_ensures(f, (&self@[j],), false),
                self@.no_duplicates() ==> v@.no_duplicates(),
            decreases self@.len() - i
        {
            let ghost v0 = v@;
            if f(&self.v[i]) {
                v.push(self.v[i]);
                proof {
                    assert(v@ == v0.push(self@[i as int]));
                    assert(v@[v0.len() as int] == self@[i as int]);
                    assert forall|j: int| 0 <= j < i + 1 implies v@.contains(#[trigger] self@[j]) || call_ensures(f, (&self@[j],), false) by {
                        if j < i && v0.contains(self@[j]) {
                            let q = choose|q: int| 0 <= q < v0.len() && v0[q] == self@[j];
                            assert(v@[q] == self@[j]);
                        }
                    }
                    assert forall|k: int| 0 <= k < v@.len() implies (exists|j: int| 0 <= j < i + 1 && self@[j] == #[trigger] v@[k]) && call_ensures(f, (&v@[k],), true) by {
                        if k < v0.len() {
                            assert(v@[k] == v0[k]);
                            let j = choose|j: int| 0 <= j < i && self@[j] == v0[k];
                            assert(self@[j] == v@[k]);
                        }
                    }
                    if v0 == self@.take(i as int) { assert(v@ =~= self@.take(i + 1)); }
                    if self@.no_duplicates() {
                        assert forall|a: int, b: int| 0 <= a < v@.len() && 0 <= b < v@.len() && a != b implies v@[a] != v@[b] by {
                            if a < v0.len() && b < v0.len() {
                                assert(v0[a] != v0[b]);
                            } else if a < v0.len() {
                                let j = choose|j: int| 0 <= j < i && self@[j] == v0[a];
                                assert(self@[j] != self@[i as int]);
                            } else if b < v0.len() {
                                let j = choose|j: int| 0 <= j < i && self@[j] == v0[b];
                                assert(self@[j] != self@[i as int]);
                            }
                        }
                    }
                }
            }
            i += 1;
        }
        proof {
            assert(self@.take(self@.len() as int) =~= self@);
            assert forall|k: int| 0 <= k < v@.len() implies self@.contains(#[trigger] v@[k]) by {
                let j = choose|j: int| 0 <= j < i && self@[j] == v@[k];
                assert(self@[j] == v@[k]);
            }
        }
        Sq { v }
    }

    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: Sq<U>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), r@[i]),
    {
        let ghost all = self@;
        let mut src: Vec<T> = self.v;
        let mut v: Vec<U> = Vec::new();
        while src.len() > 0
            invariant v@.len() + src@.len() == all.len(), src@ =~= all.skip(v@.len() as int),
                forall|j: int| 0 <= j < all.len() ==> call_requires(f, (#[trigger] all[j],)),
                forall|j: int| 0 <= j < v@.len() ==> call_ensures(f, (all[j],), #[trigger] v@[j]),
            decreases src@.len()
        {
            let x = src.remove(0);
            proof { assert(x == all[v@.len() as int]); }
            let y = f(x);
            v.push(y);
        }
        Sq { v }
    }

    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Sq<U>) where T: Copy
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],)),
        ensures
            forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> kept_from(self@, f, r@[k]),
            forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), None::<U>)
                || exists|k: int| 0 <= k < r@.len() && call_ensures(f, (self@[i],), Some(#[trigger] r@[k])),
            (forall|i: int| 0 <= i < self@.len() ==> !call_ensures(f, (#[trigger] self@[i],), None::<U>)) ==>
                r@.len() == self@.len() && forall|i: int| #![trigger r@[i]] 0 <= i < r@.len() ==> call_ensures(f, (self@[i],), Some(r@[i])),
    {
        let mut v: Vec<U> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(),
                (forall|i: int| 0 <= i < self@.len() ==> !call_ensures(f, (#[trigger] self@[i],), None::<U>)) ==>
                    v@.len() == i && forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> call_ensures(f, (self@[i],), Some(v@[i])),
                forall|j: int| 0 <= j < self@.len() ==> call_requires(f, (#[trigger] self@[j],)),
                forall|k: int| #![trigger v@[k]] 0 <= k < v@.len() ==> kept_from(self@, f, v@[k]),
                forall|j: int| #![trigger self@[j]] 0 <= j < i ==> call_ensures(f, (self@[j],), None::<U>)
                    || exists|k: int| 0 <= k < v@.len() && call_ensures(f, (self@[j],), Some(#[trigger] v@[k])),
            decreases self@.len() - i
        {
            let ghost old_v = v@;
            if let Some(y) = f(self.v[i]) {
                v.push(y);
                assert(kept_from(self@, f, y));
                proof {
                    assert(v@[old_v.len() as int] == y);
                    assert forall|j: int| #![trigger self@[j]] 0 <= j < i implies call_ensures(f, (self@[j],), None::<U>)
                        || exists|k: int| 0 <= k < v@.len() && call_ensures(f, (self@[j],), Some(#[trigger] v@[k])) by {
                        if !call_ensures(f, (self@[j],), None::<U>) {
                            let k = choose|k: int| 0 <= k < old_v.len() && call_ensures(f, (self@[j],), Some(#[trigger] old_v[k]));
                            assert(v@[k] == old_v[k]);
                        }
                    }
                }
            }
            i += 1;
        }
        let r = Sq { v };
        assert(r@ == v@);
        assert forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() implies kept_from(self@, f, r@[k]) by { assert(r@[k] == v@[k]); }
        assert forall|i: int| #![trigger self@[i]] 0 <= i < self@.len() implies (call_ensures(f, (self@[i],), None::<U>)
            || exists|k: int| 0 <= k < r@.len() && call_ensures(f, (self@[i],), Some(#[trigger] r@[k]))) by {
            if !call_ensures(f, (self@[i],), None::<U>) {
                let k = choose|k: int| 0 <= k < v@.len() && call_ensures(f, (self@[i],), Some(#[trigger] v@[k]));
                assert(r@[k] == v@[k]);
            }
        }
        r
    }

    pub fn zip<U: Copy>(self, o: Sq<U>) -> (r: Sq<(T, U)>) where T: Copy
        ensures r@.len() == (if self@.len() <= o@.len() { self@.len() } else { o@.len() }),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (self@[i], o@[i]),
    {
        let mut v: Vec<(T, U)> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len() && i < o.v.len()
            invariant i <= self@.len(), i <= o@.len(), v@.len() == i,
                forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == (self@[j], o@[j]),
            decreases self@.len() - i
        {
            v.push((self.v[i], o.v[i]));
            i += 1;
        }
        Sq { v }
    }

    pub fn enumerate(self) -> (r: Sq<(usize, T)>) where T: Copy
        ensures r@.len() == self@.len(),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (i as usize, self@[i]),
    {
        let mut v: Vec<(usize, T)> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), v@.len() == i,
                forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == (j as usize, self@[j]),
            decreases self@.len() - i
        {
            v.push((i, self.v[i]));
            i += 1;
        }
        Sq { v }
    }

    pub fn skip(self, n: usize) -> (r: Sq<T>) where T: Copy
        ensures r@ == (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() }),
    {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = n;
        while i < self.v.len()
            invariant n <= i, n <= self@.len() ==> i <= self@.len() && v@ =~= self@.subrange(n as int, i as int), n > self@.len() ==> v@.len() == 0,
            decreases self@.len() - i
        {
            v.push(self.v[i]);
            i += 1;
        }
        proof { assert(v@ =~= (if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() })); }
        Sq { v }
    }

    pub fn take(self, n: usize) -> (r: Sq<T>) where T: Copy
        ensures r@ == (if n <= self@.len() { self@.take(n as int) } else { self@ }),
    {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len() && i < n
            invariant i <= self@.len(), i <= n, v@ =~= self@.subrange(0, i as int),
            decreases self@.len() - i
        {
            v.push(self.v[i]);
            i += 1;
        }
        proof { assert(v@ =~= (if n <= self@.len() { self@.take(n as int) } else { self@ })); }
        Sq { v }
    }

    pub fn chain(self, o: Sq<T>) -> (r: Sq<T>) where T: Copy
        ensures r@ == self@ + o@,
    {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), v@ =~= self@.subrange(0, i as int),
            decreases self@.len() - i
        {
            v.push(self.v[i]);
            i += 1;
        }
        let mut j: usize = 0;
        while j < o.v.len()
            invariant j <= o@.len(), v@ =~= self@ + o@.subrange(0, j as int),
            decreases o@.len() - j
        {
            v.push(o.v[j]);
            j += 1;
        }
        proof { assert(v@ =~= self@ + o@); }
        Sq { v }
    }

    pub fn nth(self, n: usize) -> (r: Option<T>) where T: Copy
        ensures r == (if n < self@.len() { Some(self@[n as int]) } else { None }),
    {
        if n < self.v.len() { Some(self.v[n]) } else { None }
    }

    pub fn next(self) -> (r: Option<T>) where T: Copy
        ensures r == (if self@.len() > 0 { Some(self@[0]) } else { None }),
    {
        if self.v.len() > 0 { Some(self.v[0]) } else { None }
    }

    pub fn last(self) -> (r: Option<T>) where T: Copy
        ensures r == (if self@.len() > 0 { Some(self@[self@.len() - 1]) } else { None }),
    {
        if self.v.len() > 0 { Some(self.v[self.v.len() - 1]) } else { None }
    }

    pub fn next_back(self) -> (r: Option<T>) where T: Copy
        ensures r == (if self@.len() > 0 { Some(self@[self@.len() - 1]) } else { None }),
    {
        if self.v.len() > 0 { Some(self.v[self.v.len() - 1]) } else { None }
    }

    pub fn rev(self) -> (r: Sq<T>) where T: Copy
        ensures r@.len() == self@.len(),
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self@[self@.len() - 1 - i],
    {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = self.v.len();
        while i > 0
            invariant i <= self@.len(), v@.len() == self@.len() - i,
                forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j] == self@[self@.len() - 1 - j],
            decreases i
        {
            i -= 1;
            v.push(self.v[i]);
        }
        Sq { v }
    }
}

impl<'a, T: Copy> Sq<&'a T> {
    pub fn copied(self) -> (r: Sq<T>)
        ensures r@.len() == self@.len(),
            forall|i: int| #![trigger r@[i]] #![trigger self@[i]] 0 <= i < r@.len() ==> r@[i] == *self@[i],
    {
        let mut v: Vec<T> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len()
            invariant i <= self@.len(), v@.len() == i,
                forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == *self@[j],
            decreases self@.len() - i
        {
            v.push(*self.v[i]);
            i += 1;
        }
        Sq { v }
    }
}

/// `str::chars`
pub trait CharsExt {
    spec fn chars_of(&self) -> Seq<char>;
    fn chars_sq(&self) -> (r: Sq<char>) ensures r@ == self.chars_of();
}
impl CharsExt for str {
    open spec fn chars_of(&self) -> Seq<char> { self@ }
    fn chars_sq(&self) -> (r: Sq<char>) {
        let n = self.unicode_len();
        let mut v: Vec<char> = Vec::new();
        let mut i: usize = 0;
        while i < n
            invariant n == self@.len(), i <= n, v@ =~= self@.take(i as int)
            decreases n - i
        {
            v.push(self.get_char(i));
            i += 1;
        }
        proof { assert(v@ =~= self@); }
        Sq { v }
    }
}

impl Sq<usize> {
    pub fn min(self) -> (r: Option<usize>)
        ensures r is Some <==> self@.len() > 0,
            r is Some ==> self@.contains(r->0) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] >= r->0,
    {
        if self.v.len() == 0 { return None; }
        let mut m = self.v[0];
        let mut i: usize = 1;
        proof { assert(self@[0] == m); }
        while i < self.v.len()
            invariant 1 <= i <= self@.len(), self@.contains(m), forall|j: int| 0 <= j < i ==> #[trigger] self@[j] >= m,
            decreases self@.len() - i
        {
            if self.v[i] < m { m = self.v[i]; proof { assert(self@[i as int] == m); } }
            i += 1;
        }
        Some(m)
    }
    pub fn max(self) -> (r: Option<usize>)
        ensures r is Some <==> self@.len() > 0,
            r is Some ==> self@.contains(r->0) && forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i] <= r->0,
    {
        if self.v.len() == 0 { return None; }
        let mut m = self.v[0];
        let mut i: usize = 1;
        proof { assert(self@[0] == m); }
        while i < self.v.len()
            invariant 1 <= i <= self@.len(), self@.contains(m), forall|j: int| 0 <= j < i ==> #[trigger] self@[j] <= m,
            decreases self@.len() - i
        {
            if self.v[i] > m { m = self.v[i]; proof { assert(self@[i as int] == m); } }
            i += 1;
        }
        Some(m)
    }
}

/// Equality of a key type means what it says.
pub open spec fn eq_ok<K: Eq>() -> bool {
    &&& vstd::laws_eq::obeys_eq::<K>()
    &&& forall|x: K, y: K| #[trigger] x.eq_spec(&y) <==> x == y
}

/// ASSUMED(core): sorting calls the comparison on elements of the vector only and permutes it.
pub trait SortExt<T> {
    spec fn sort_seq(&self) -> Seq<T>;
    fn sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|i: int, j: int| 0 <= i < old(self).sort_seq().len() && 0 <= j < old(self).sort_seq().len() ==>
            call_requires(f, (&#[trigger] old(self).sort_seq()[i], &#[trigger] old(self).sort_seq()[j])),
        ensures final(self).sort_seq().to_multiset() == old(self).sort_seq().to_multiset(),
            final(self).sort_seq().len() == old(self).sort_seq().len();
}
impl<T> SortExt<T> for Vec<T> {
    open spec fn sort_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() }
}


// ---------------------------------------------------------------- hash containers
/// ASSUMED(std / rapidhash): hash sets and maps behave as sets and maps for keys whose Eq and
/// Hash agree.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { p: core::marker::PhantomData<T> }

impl<T> View for HashSet<T> {
    type V = Set<T>;
    uninterp spec fn view(&self) -> Set<T>;
}
impl<T> HashSet<T> {
    pub open spec fn s_contains(&self, x: &T) -> bool { self@.contains(*x) }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&'a self) -> (r: Sq<&'a T>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains(*(#[trigger] r@[i])),
            r@.len() == self@.len(),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { p: core::marker::PhantomData<(K, V)> }

impl<K, V> View for HashMap<K, V> {
    type V = Map<K, V>;
    uninterp spec fn view(&self) -> Map<K, V>;
}
impl<K, V> HashMap<K, V> {
    pub open spec fn s_get(&self, k: &K) -> Option<&V> { if self@.contains_key(*k) { Some(&self@[*k]) } else { None } }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>) where K: Eq
        ensures eq_ok::<K>() ==> r == (if self@.contains_key(*k) { Some(&self@[*k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) where K: Eq
        ensures eq_ok::<K>() ==> r == self@.contains_key(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) where K: Eq
        ensures eq_ok::<K>() ==> final(self)@ == old(self)@.insert(k, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>) where K: Eq
        ensures eq_ok::<K>() ==> match r {
            Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
            None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@,
        }
    { unimplemented!() }
}
/// ASSUMED(derive): the derived equality of node ids compares them.
#[verifier::external_body]
pub proof fn node_eq()
    ensures eq_ok::<NodeId>()
{}
/// The list stored under a key (empty when absent).
pub open spec fn bucket<K, V>(m: Map<K, Vec<V>>, k: K) -> Seq<V> {
    if m.contains_key(k) { m[k]@ } else { Seq::empty() }
}
impl<K, V> HashMap<K, Vec<V>> {
    /// `entry(k).or_default().push(v)`
    #[verifier::external_body]
    pub fn entry_or_default_push(&mut self, k: K, v: V) where K: Eq
        ensures
            eq_ok::<K>() ==> bucket(final(self)@, k) == bucket(old(self)@, k).push(v)
                && forall|j: K| j != k ==> #[trigger] bucket(final(self)@, j) == bucket(old(self)@, j),
    { unimplemented!() }
}

/// What `LazyDescendantMap::get_or_compute` hands out (the code returns an opaque Deref).
pub struct DescRef<'a> { pub set: &'a HashSet<NodeId> }
impl<'a> View for DescRef<'a> {
    type V = Set<NodeId>;
    open spec fn view(&self) -> Set<NodeId> { self.set@ }
}
impl<'a> DescRef<'a> {
    pub open spec fn s_contains(&self, x: &NodeId) -> bool { self@.contains(*x) }
    pub fn contains(&self, x: &NodeId) -> (r: bool) ensures r == self@.contains(*x) { self.set.contains(x) }
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<NodeId>::empty()) { self.set.is_empty() }
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.set.len() }
    pub fn iter(&self) -> (r: Sq<&NodeId>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains(*(#[trigger] r@[i])), r@.len() == self@.len(),
    { self.set.iter() }
}

/// core::cell::RefCell: only constructed by the code under contract.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { p: core::marker::PhantomData<T> }
impl<T> RefCell<T> {
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Self) { unimplemented!() }
}
/// core::cell::Cell: whatever is put in keeps to the rule the cell was made with, so whatever comes out does.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cell<T> { p: core::marker::PhantomData<T> }
impl<T> Cell<T> {
    pub uninterp spec fn rule(&self) -> spec_fn(T) -> bool;
    #[verifier::external_body]
    pub fn new_ruled(x: T, f: Ghost<spec_fn(T) -> bool>) -> (r: Self)
        requires (f@)(x) ensures r.rule() == f@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self) -> (r: T) ensures (self.rule())(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&self, x: T) requires (self.rule())(x) { unimplemented!() }
}

} // verus!
}
