// H04: the property change computed for an element.
pub mod html_props {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::html_types::*;
verus! {

//@item PropValue
//@item PropertyInFinalState
//@item PropKey
//@item HtmlProps

pub trait Properties: Sized {
    type Key;
    type Value;
    fn diff(&self, other: &Self) -> (r: Vec<PropertyInFinalState<Self::Key, Self::Value>>);
    fn is_empty(&self) -> (r: bool);
    fn len(&self) -> (r: usize);
}

/// The list has an attribute of that name with that value.
pub open spec fn has_attr(l: Seq<(QualName, Stem<'_>)>, q: QualName, v: Seq<char>) -> bool {
    exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == q && l[i].1@ == v
}
/// Equal as ordered lists of name and value.
pub open spec fn same_list(a: Seq<(QualName, Stem<'_>)>, b: Seq<(QualName, Stem<'_>)>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i].0 == b[i].0 && a[i].1@ == b[i].1@
}
/// No name twice (HTML parsers drop repeated attributes).
pub open spec fn distinct(l: Seq<(QualName, Stem<'_>)>) -> bool {
    forall|i: int, j: int| #![trigger l[i], l[j]] 0 <= i < j < l.len() ==> l[i].0 != l[j].0
}
pub open spec fn names(l: Seq<(QualName, Stem<'_>)>) -> Seq<QualName> {
    Seq::new(l.len(), |i: int| l[i].0)
}
/// A vector of references to the names of a list.
pub open spec fn key_refs(v: Seq<&QualName>, l: Seq<(QualName, Stem<'_>)>) -> bool {
    v.len() == l.len() && forall|i: int| #![trigger v[i]] #![trigger l[i]] 0 <= i < v.len() ==> *v[i] == l[i].0
}
/// The first `n` entries carry the names of the new list, in its order.
pub open spec fn keys_ok(r: Seq<PropertyInFinalState<PropKey, Stem<'_>>>, new: Seq<(QualName, Stem<'_>)>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> (#[trigger] r[i]).key == PropKey::Attr(new[i].0)
}
/// An entry marked unchanged has the same name and value in the old list.
pub open spec fn same_ok(r: Seq<PropertyInFinalState<PropKey, Stem<'_>>>, old: Seq<(QualName, Stem<'_>)>, new: Seq<(QualName, Stem<'_>)>) -> bool {
    forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).value is Same ==> has_attr(old, new[i].0, new[i].1@)
}
/// An entry marked changed carries the new value.
pub open spec fn different_ok(r: Seq<PropertyInFinalState<PropKey, Stem<'_>>>, new: Seq<(QualName, Stem<'_>)>) -> bool {
    forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]).value is Different ==> r[i].value->Different_0@ == new[i].1@
}
pub open spec fn all_same(l: Seq<PropertyInFinalState<PropKey, Stem<'_>>>) -> bool {
    forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).value is Same
}

/// Distinct new names that all occur in an old list that is not longer: then every old name occurs.
pub proof fn lemma_covered(a: Seq<(QualName, Stem<'_>)>, b: Seq<(QualName, Stem<'_>)>)
    requires distinct(a), distinct(b), a.len() <= b.len(),
        forall|j: int| 0 <= j < b.len() ==> has_attr(a, (#[trigger] b[j]).0, b[j].1@),
    ensures a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> names(b).contains((#[trigger] a[i]).0),
{
    let na = names(a);
    let nb = names(b);
    assert(na.no_duplicates());
    assert(nb.no_duplicates());
    na.unique_seq_to_set();
    nb.unique_seq_to_set();
    assert forall|q: QualName| nb.to_set().contains(q) implies na.to_set().contains(q) by {
        let j = choose|j: int| 0 <= j < nb.len() && nb[j] == q;
        assert(has_attr(a, b[j].0, b[j].1@));
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == b[j].0 && a[i].1@ == b[j].1@;
        assert(na[i] == q);
    }
    vstd::set_lib::lemma_len_subset(nb.to_set(), na.to_set());
    vstd::set_lib::lemma_subset_equality(nb.to_set(), na.to_set());
    assert forall|i: int| 0 <= i < a.len() implies nb.contains((#[trigger] a[i]).0) by {
        assert(na[i] == a[i].0);
        assert(na.to_set().contains(na[i]));
        assert(nb.to_set().contains(na[i]));
    }
}

/// Vectors of name references compare like the lists of names.
pub proof fn lemma_vec_eq(a: Vec<&QualName>, b: Vec<&QualName>)
    ensures PartialEqSpec::eq_spec(&a, &b) <==> (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> *(#[trigger] a@[i]) == *b@[i]),
        <Vec<&QualName> as PartialEqSpec>::obeys_eq_spec(),
{
    assert(<&QualName as PartialEqSpec>::obeys_eq_spec());
    if PartialEqSpec::eq_spec(&a, &b) {
        assert forall|i: int| 0 <= i < a@.len() implies *(#[trigger] a@[i]) == *b@[i] by { assert(PartialEqSpec::eq_spec(&a@[i], &b@[i])); }
    }
}

impl<'a> Properties for HtmlProps<'a> {
    type Key = PropKey;
    type Value = Stem<'a>;

    //@fn <Properties for HtmlProps>::diff loops=1
    //@params other
    //@var result 0 Vec::new
    //@pat 0 key new_val
    //@var self_keys 0 self.attrs.iter().map
    //@var other_keys 0 other.attrs.iter().map
    //@var self_common 0 other_keys.contains
    //@var other_common 0 self_keys.contains
    //@var order_differs 0 self_common!=other_common
    //@var forced_one 0 false
    //@spec
        ensures
            r@.len() == other.attrs@.len(), // @H04
            keys_ok(r@, other.attrs@, r@.len() as int), // @H04
            same_ok(r@, self.attrs@, other.attrs@), // @H04
            different_ok(r@, other.attrs@), // @H04
            distinct(self.attrs@) && distinct(other.attrs@) && !same_list(self.attrs@, other.attrs@) ==> r@.len() < self.attrs@.len() || !all_same(r@), // @H04
            distinct(self.attrs@) && same_list(self.attrs@, other.attrs@) ==> all_same(r@), // @H04
    //@loop 0 pre
        proof {
            assert(key_refs(self_keys@, self.attrs@));
            assert(key_refs(other_keys@, other.attrs@));
            if forall|i: int| 0 <= i < self.attrs@.len() ==> names(other.attrs@).contains((#[trigger] self.attrs@[i]).0) {
                assert forall|i: int| 0 <= i < self_keys@.len() implies other_keys.s_contains(&#[trigger] self_keys@[i]) by {
                    let q = self.attrs@[i].0;
                    assert(names(other.attrs@).contains(q));
                    let j = choose|j: int| 0 <= j < other.attrs@.len() && names(other.attrs@)[j] == q;
                    assert(PartialEqSpec::eq_spec(&other_keys@[j], &self_keys@[i]));
                }
                assert(key_refs(self_common@, self.attrs@));
            }
            if forall|j: int| 0 <= j < other.attrs@.len() ==> names(self.attrs@).contains((#[trigger] other.attrs@[j]).0) {
                assert forall|j: int| 0 <= j < other_keys@.len() implies self_keys.s_contains(&#[trigger] other_keys@[j]) by {
                    let q = other.attrs@[j].0;
                    assert(names(self.attrs@).contains(q));
                    let i = choose|i: int| 0 <= i < self.attrs@.len() && names(self.attrs@)[i] == q;
                    assert(PartialEqSpec::eq_spec(&self_keys@[i], &other_keys@[j]));
                }
                assert(key_refs(other_common@, other.attrs@));
            }
            lemma_vec_eq(self_common, other_common);
            if same_list(self.attrs@, other.attrs@) {
                assert forall|i: int| 0 <= i < self.attrs@.len() implies names(other.attrs@).contains((#[trigger] self.attrs@[i]).0) by {
                    assert(names(other.attrs@)[i] == self.attrs@[i].0);
                }
                assert forall|j: int| 0 <= j < other.attrs@.len() implies names(self.attrs@).contains((#[trigger] other.attrs@[j]).0) by {
                    assert(names(self.attrs@)[j] == other.attrs@[j].0);
                }
                assert(!order_differs);
            }
        }
    //@loop 0 head
        invariant
            __s0@.len() == other.attrs@.len(),
            forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == other.attrs@[i],
            result@.len() == __i0,
            keys_ok(result@, other.attrs@, __i0 as int), // @H04
            same_ok(result@, self.attrs@, other.attrs@), // @H04
            different_ok(result@, other.attrs@), // @H04
            forced_one ==> order_differs,
            order_differs && all_same(result@) ==> !forced_one,
            order_differs && all_same(result@) ==> __i0 == 0,
            same_list(self.attrs@, other.attrs@) ==> !order_differs,
            distinct(self.attrs@) && same_list(self.attrs@, other.attrs@) ==> all_same(result@), // @H04
    //@loop 0 start
        let ghost r0 = result@;
        proof {
            let k = __i0 - 1;
            assert(*__s0@[k] == other.attrs@[k]);
        }
    //@loop 0 end
        proof {
            assert(result@.len() == r0.len() + 1);
            assert(forall|i: int| 0 <= i < r0.len() ==> #[trigger] r0[i] == result@[i]);
            if all_same(result@) {
                assert forall|i: int| 0 <= i < r0.len() implies (#[trigger] r0[i]).value is Same by { assert(result@[i].value is Same); }
                assert(result@[r0.len() as int].value is Same);
            }
            if distinct(self.attrs@) && same_list(self.attrs@, other.attrs@) {
                assert(self.attrs@[r0.len() as int].0 == other.attrs@[r0.len() as int].0);
            }
        }
    //@tail
        proof {
            if distinct(self.attrs@) && distinct(other.attrs@) && all_same(result@) && result@.len() >= self.attrs@.len() {
                assert forall|j: int| 0 <= j < other.attrs@.len() implies has_attr(self.attrs@, (#[trigger] other.attrs@[j]).0, other.attrs@[j].1@) by {
                    assert(result@[j].value is Same);
                }
                lemma_covered(self.attrs@, other.attrs@);
                assert forall|j: int| 0 <= j < other.attrs@.len() implies names(self.attrs@).contains((#[trigger] other.attrs@[j]).0) by {
                    assert(has_attr(self.attrs@, other.attrs@[j].0, other.attrs@[j].1@));
                    let i = choose|i: int| 0 <= i < self.attrs@.len() && (#[trigger] self.attrs@[i]).0 == other.attrs@[j].0 && self.attrs@[i].1@ == other.attrs@[j].1@;
                    assert(names(self.attrs@)[i] == other.attrs@[j].0);
                }
                if order_differs {
                    assert(other.attrs@.len() == 0);
                } else {
                    assert forall|i: int| 0 <= i < self.attrs@.len() implies #[trigger] self.attrs@[i].0 == other.attrs@[i].0 by {
                        assert(*self_common@[i] == *other_common@[i]);
                    }
                    assert forall|i: int| 0 <= i < self.attrs@.len() implies #[trigger] self.attrs@[i].1@ == other.attrs@[i].1@ by {
                        assert(has_attr(self.attrs@, other.attrs@[i].0, other.attrs@[i].1@));
                        let k = choose|k: int| 0 <= k < self.attrs@.len() && (#[trigger] self.attrs@[k]).0 == other.attrs@[i].0 && self.attrs@[k].1@ == other.attrs@[i].1@;
                        assert(self.attrs@[i].0 == self.attrs@[k].0);
                    }
                }
                assert(same_list(self.attrs@, other.attrs@));
            }
        }
    //@end
    //@fn <Properties for HtmlProps>::is_empty loops=0
    //@spec
        ensures r == (self.attrs@.len() == 0), // @H04
    //@end
    //@fn <Properties for HtmlProps>::len loops=0
    //@spec
        ensures r == self.attrs@.len(), // @H04
    //@end
}

} // verus!
}
