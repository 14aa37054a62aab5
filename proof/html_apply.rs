// H02: placing nodes in the document. H08: what a patch does to it.
pub mod html_apply {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_dom::*;
use crate::html_dom::{NodeData, NodeKind};
use crate::html_props::*;
use crate::html_patch::*;
verus! {

//@item DiffError

/// ASSUMED(tendril): some text.
#[verifier::external_body]
pub struct StrTendril { s: String }
impl StrTendril {
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
}
impl View for StrTendril { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl AsRefStr for StrTendril {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &str) { unimplemented!() }
}
/// ASSUMED(html5ever): parsing yields a document, whatever the text.
#[verifier::external_body]
pub fn parse<'b>(t: &'b StrTendril) -> (r: Document<'b>)
    ensures trees(r.m()), r.m().has(r.root)
{ unimplemented!() }

pub type DocM<'a> = ForestM<NodeData<'a>>;
pub open spec fn empty_text(d: NodeData<'_>) -> bool { d.kind is Text && d.kind->Text_0@.len() == 0 }
/// Everything that was there is as it was, except the children of `p` and the parent of `n`.
pub open spec fn kept<'a>(a: DocM<'a>, b: DocM<'a>, p: NodeId, n: NodeId) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] a.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != p ==> b.kids(y) == a.kids(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) && y != n ==> b.par(y) == a.par(y)
}
/// The children of `p` were filled up with fresh empty text nodes to `l` children.
pub open spec fn filled<'a>(a: DocM<'a>, b: DocM<'a>, p: NodeId, l: int) -> bool {
    let o = a.kids(p);
    let w = b.kids(p);
    &&& w.len() == l >= o.len()
    &&& forall|i: int| #![trigger w[i]] 0 <= i < o.len() ==> w[i] == o[i]
    &&& forall|i: int| #![trigger w[i]] o.len() <= i < l ==> !a.has(w[i]) && empty_text(b.data(w[i])) && b.kids(w[i]).len() == 0
}
/// `n` was put at position `pos` below `p`, and nothing else was touched.
pub open spec fn placed<'a>(a: DocM<'a>, b: DocM<'a>, p: NodeId, pos: int, n: NodeId) -> bool {
    let o = a.kids(p);
    let w = b.kids(p);
    &&& kept(a, b, p, n)
    &&& b.par(n) == Some(p)
    &&& if pos <= o.len() { w == o.insert(pos, n) } else {
            &&& w.len() == pos + 1
            &&& w[pos] == n
            &&& forall|i: int| #![trigger w[i]] 0 <= i < o.len() ==> w[i] == o[i]
            &&& forall|i: int| #![trigger w[i]] o.len() <= i < pos ==> !a.has(w[i]) && empty_text(b.data(w[i])) && b.kids(w[i]).len() == 0
        }
}
/// `n` took the place `pos` below `p`; the node that was there has no parent any more.
pub open spec fn replaced<'a>(a: DocM<'a>, b: DocM<'a>, p: NodeId, pos: int, n: NodeId) -> bool {
    let d = a.kids(p)[pos];
    &&& forall|y: NodeId| #![trigger b.has(y)] a.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != p ==> b.kids(y) == a.kids(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) && y != n && y != d ==> b.par(y) == a.par(y)
    &&& b.par(n) == Some(p)
    &&& b.par(d) is None
    &&& b.kids(p) == a.kids(p).update(pos, n)
}
/// What inserting `n` at a place does, to the document and to the slots.
pub open spec fn put<'a>(a: DocM<'a>, s: Slots, b: DocM<'a>, t: Slots, at: (NodeId, int), n: NodeId, slot: Option<u32>) -> bool {
    if slot is Some && at.1 < a.kids(at.0).len() {
        replaced(a, b, at.0, at.1, n) && t == s.insert(slot->0, a.kids(at.0)[at.1])
    } else {
        placed(a, b, at.0, at.1, n) && t == s
    }
}

pub open spec fn same_doc(a: &Document<'_>, b: &Document<'_>) -> bool {
    a.root == b.root && a.errors == b.errors && a.doctype == b.doctype
}
pub proof fn place_end<'a>(a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, p: NodeId, pos: int, n: NodeId, k: int)
    requires trees(a), trees(b), a.has(p), a.has(n), a.par(n) is None, n != p, 0 <= pos, kept(a, b, p, p), b.par(p) == a.par(p),
        filled(a, b, p, if pos > a.kids(p).len() { pos } else { a.kids(p).len() as int }),
        inserted(b, c, p, k, n), k == (if pos >= b.kids(p).len() { without(b.kids(p), n).len() as int } else { without(b.kids(p), n).index_of(b.kids(p)[pos]) })
    ensures placed(a, c, p, pos, n)
{
    assert(b.has(p));
    assert(b.par(n) is None);
    no_kid(b, p, n);
    if pos < b.kids(p).len() { kid_index(b, p, pos); }
    assert(k == pos);
    if pos <= a.kids(p).len() { assert(b.kids(p) =~= a.kids(p)); }
    else {
        assert forall|i: int| #![trigger c.kids(p)[i]] a.kids(p).len() <= i < pos implies
            !a.has(c.kids(p)[i]) && empty_text(c.data(c.kids(p)[i])) && c.kids(c.kids(p)[i]).len() == 0 by {
            assert(c.kids(p)[i] == b.kids(p)[i]);
        }
    }
    assert forall|y: NodeId| #![trigger c.kids(y)] a.has(y) && y != p implies c.kids(y) == a.kids(y) by { assert(b.kids(y) == a.kids(y)); }
    assert forall|y: NodeId| #![trigger c.par(y)] a.has(y) && y != n implies c.par(y) == a.par(y) by { assert(b.par(y) == a.par(y)); }
    assert forall|y: NodeId| #![trigger c.data(y)] a.has(y) implies c.data(y) == a.data(y) by { assert(b.data(y) == a.data(y)); }
    assert forall|y: NodeId| #![trigger c.has(y)] a.has(y) implies c.has(y) by { assert(b.has(y)); }
}
pub proof fn put_end<'a>(a: DocM<'a>, s: Slots, b: DocM<'a>, c: DocM<'a>, t: Slots, at: (NodeId, int), n: NodeId, slot: Option<u32>)
    requires trees(a), trees(b), a.has(at.0), a.has(n), a.par(n) is None, slots_ok(a, s), 0 <= at.1, placed(b, c, at.0, at.1, n),
        if slot is Some && at.1 < a.kids(at.0).len() { detached(a, b, a.kids(at.0)[at.1]) && t == s.insert(slot->0, a.kids(at.0)[at.1]) } else { b == a && t == s }
    ensures put(a, s, c, t, at, n, slot), slots_ok(c, t)
{
    let p = at.0;
    if slot is Some && at.1 < a.kids(p).len() {
        let d = a.kids(p)[at.1];
        kid_index(a, p, at.1);
        assert(a.par(d) == Some(p));
        assert(b.kids(p) == a.kids(p).remove(at.1));
        assert(c.kids(p) =~= a.kids(p).update(at.1, n));
        assert(b.par(d) is None);
        assert(b.has(d));
        assert forall|y: NodeId| #![trigger c.kids(y)] a.has(y) && y != p implies c.kids(y) == a.kids(y) by { assert(b.has(y)); assert(b.kids(y) == a.kids(y)); }
        assert forall|y: NodeId| #![trigger c.par(y)] a.has(y) && y != n && y != d implies c.par(y) == a.par(y) by { assert(b.has(y)); assert(b.par(y) == a.par(y)); }
        assert forall|y: NodeId| #![trigger c.data(y)] a.has(y) implies c.data(y) == a.data(y) by { assert(b.has(y)); assert(b.data(y) == a.data(y)); }
        assert forall|y: NodeId| #![trigger c.has(y)] a.has(y) implies c.has(y) by { assert(b.has(y)); }
        assert forall|q: u32| #![trigger t[q]] t.contains_key(q) implies c.has(t[q]) by { if q != slot->0 { assert(t[q] == s[q]); assert(a.has(s[q])); } }
    } else {
        assert forall|q: u32| #![trigger t[q]] t.contains_key(q) implies c.has(t[q]) by { assert(a.has(s[q])); }
    }
}
pub proof fn fill_step<'a>(a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, d: DocM<'a>, p: NodeId, l: int, n: NodeId, x: NodeId, e: NodeData<'a>)
    requires trees(a), trees(b), trees(c), a.has(p), a.has(n), kept(a, b, p, p), filled(a, b, p, l), created(b, c, x, e), empty_text(e),
        inserted(c, d, p, without(c.kids(p), x).len() as int, x), b.par(p) == a.par(p)
    ensures kept(a, d, p, p), filled(a, d, p, l + 1), d.par(p) == a.par(p)
{
    no_kid(c, p, x);
    assert(c.kids(p) == b.kids(p));
    assert(!b.has(x));
    assert(d.kids(p) =~= b.kids(p).push(x));
    assert forall|i: int| #![trigger d.kids(p)[i]] a.kids(p).len() <= i < l + 1 implies
        !a.has(d.kids(p)[i]) && empty_text(d.data(d.kids(p)[i])) && d.kids(d.kids(p)[i]).len() == 0 by {
        if i < l { let w = b.kids(p)[i]; assert(b.has(w)); assert(w != x); assert(d.kids(w) == b.kids(w)); assert(d.data(w) == b.data(w)); }
        else { assert(d.data(x) == e); assert(d.kids(x) == c.kids(x)); }
    }
    assert forall|y: NodeId| #![trigger d.kids(y)] a.has(y) && y != p implies d.kids(y) == a.kids(y) by { assert(b.has(y)); assert(c.par(x) is None); assert(c.kids(y) == b.kids(y)); }
    assert forall|y: NodeId| #![trigger d.par(y)] a.has(y) && y != p implies d.par(y) == a.par(y) by { assert(b.has(y)); assert(c.par(y) == b.par(y)); }
    assert forall|y: NodeId| #![trigger d.data(y)] a.has(y) implies d.data(y) == a.data(y) by { assert(b.has(y)); assert(c.data(y) == b.data(y)); }
    assert forall|y: NodeId| #![trigger d.has(y)] a.has(y) implies d.has(y) by { assert(b.has(y)); assert(c.has(y)); }
}

impl<'a> Document<'a> {
    //@fn Document::navigate_slot_path loops=1
    //@params path slots
    //@pat 0 idx
    //@var current 0 slot_root
    //@var slot_root 0 slots.get
    //@spec
        requires trees(self.m()), slots_ok(self.m(), slots@)
        ensures match nav(self.m(), slots@, path@) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err }, // @H02 @H03 @H08
    //@loop 0 head
        invariant path@.len() > 0, slots@.contains_key(path@[0]), slot_root == slots@[path@[0]],
            trees(self.m()), self.m().has(current), __s0@.len() == path@.len() - 1,
            forall|i: int| 0 <= i < __s0@.len() ==> *(#[trigger] __s0@[i]) == path@.skip(1)[i],
            walk(self.m(), slot_root, path@.skip(1).take(__i0 as int)) == Some(current), // @H02 @H03 @H08
    //@loop 0 start
        proof {
            walk_step(self.m(), slot_root, path@.skip(1), __i0 - 1);
            if self.m().kids(current).len() <= idx { walk_stuck(self.m(), slot_root, path@.skip(1), __i0 as int); }
        }
    //@loop 0 pre
        proof { assert(path@.skip(1).take(0) =~= Seq::empty()); }
    //@loop 0 after
        proof { assert(path@.skip(1).take(path@.len() - 1) =~= path@.skip(1)); }
    //@end
    //@fn Document::get_slot_parent loops=0
    //@params path slots
    //@spec
        requires trees(self.m()), slots_ok(self.m(), slots@)
        ensures match place(self.m(), slots@, path@) { Some(x) => r is Ok && r->Ok_0.0 == x.0 && r->Ok_0.1 == x.1, None => r is Err }, // @H02 @H03 @H08
    //@start
        proof { if path@.len() >= 2 { assert(path@.take(path@.len() - 1) =~= path@.drop_last()); } }
    //@end
    //@fn Document::insert_at_position loops=1
    //@attr #[verifier::spinoff_prover]
    //@params parent_id position node_to_insert
    //@var empty_text 0 new_node
    //@spec
        requires trees(old(self).m()), old(self).m().has(parent_id), old(self).m().has(node_to_insert),
            old(self).m().par(node_to_insert) is None, !above(old(self).m(), node_to_insert, parent_id)
        ensures r is Ok, // @H02 @H08
            placed(old(self).m(), final(self).m(), parent_id, position as int, node_to_insert), // @H02 @H08
            trees(final(self).m()), same_doc(old(self), final(self)), // @H02 @H08
    //@loop 0 head
        invariant trees(old(self).m()), old(self).m().has(parent_id), old(self).m().has(node_to_insert),
            old(self).m().par(node_to_insert) is None, !above(old(self).m(), node_to_insert, parent_id),
            trees(self.m()), same_doc(old(self), self), __s0@.len() == (if position > old(self).m().kids(parent_id).len() { position - old(self).m().kids(parent_id).len() } else { 0 }),
            self.m().has(parent_id),
            kept(old(self).m(), self.m(), parent_id, parent_id), self.m().par(parent_id) == old(self).m().par(parent_id), // @H02 @H08
            filled(old(self).m(), self.m(), parent_id, old(self).m().kids(parent_id).len() + __i0), // @H02 @H08
    //@loop 0 start
        let ghost b = self.m();
    //@after new_node 0
        let ghost c = self.m();
        proof { new_above(b, c, empty_text, c.data(empty_text), parent_id); }
    //@loop 0 end
        proof {
            fill_step(old(self).m(), b, c, self.m(), parent_id, old(self).m().kids(parent_id).len() + __i0 - 1, node_to_insert, empty_text, c.data(empty_text)); // @H02 @H08
        }
    //@loop 0 after
        let ghost b = self.m();
        proof {
            above_self(b, node_to_insert);
            above_same(old(self).m(), b, node_to_insert, parent_id);
            if position < b.kids(parent_id).len() {
                let y = b.kids(parent_id)[position as int];
                kid_index(b, parent_id, position as int);
                assert(b.par(y) == Some(parent_id));
                if above(b, node_to_insert, y) { above_kid(b, node_to_insert, y); }
            }
        }
    //@tail
        proof {
            place_end(old(self).m(), b, self.m(), parent_id, position as int, node_to_insert,
                if position >= b.kids(parent_id).len() { without(b.kids(parent_id), node_to_insert).len() as int }
                else { without(b.kids(parent_id), node_to_insert).index_of(b.kids(parent_id)[position as int]) }); // @H02 @H08
        }
    //@end
    //@fn Document::insert_at loops=0
    //@attr #[verifier::spinoff_prover]
    //@params at node_to_insert detach_to_slot slots
    //@spec
        requires trees(old(self).m()), slots_ok(old(self).m(), old(slots)@), old(self).m().has(node_to_insert), old(self).m().par(node_to_insert) is None,
            match place(old(self).m(), old(slots)@, at.0.0@) { Some(x) => !above(old(self).m(), node_to_insert, x.0), None => true },
        ensures match place(old(self).m(), old(slots)@, at.0.0@) {
                Some(x) => r is Ok && put(old(self).m(), old(slots)@, final(self).m(), final(slots)@, x, node_to_insert, detach_to_slot), // @H02 @H08
                None => r is Err && final(self).m() == old(self).m() && final(slots)@ == old(slots)@, // @H02 @H08
            },
            trees(final(self).m()), same_doc(old(self), final(self)), slots_ok(final(self).m(), final(slots)@), // @H02 @H08
    //@start
        let ghost a = self.m();
        let ghost path = at.0.0@;
        proof { place_in(a, slots@, path); }
    //@before detach 0
        proof { kid_index(self.m(), parent_id, position as int); }
    //@after detach 0
        proof { if above(self.m(), node_to_insert, parent_id) { above_less(a, self.m(), node_to_insert, parent_id); } }
    //@before insert_at_position 0
        let ghost b = self.m();
    //@after insert_at_position 0
        proof { put_end(a, old(slots)@, b, self.m(), slots@, (parent_id, position as int), node_to_insert, detach_to_slot); }
    //@end
}

// ---------------------------------------------------------------- building what a patch inserts
/// Everything that was there is exactly as it was.
pub open spec fn only_more<'a>(a: DocM<'a>, b: DocM<'a>) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] a.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) ==> b.kids(y) == a.kids(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == a.par(y)
}
pub open spec fn pairs_v(l: Seq<(QualName, Stem<'_>)>) -> Seq<AttrV> { Seq::new(l.len(), |i: int| (l[i].0, l[i].1@)) }
/// What the node itself says, without its children.
pub open spec fn says(d: NodeData<'_>, c: ContentV) -> bool {
    &&& d.ns == Namespace::Html
    &&& match c {
            ContentV::Element { tag, attrs, children } => d.kind is Element && d.kind->Element_0.tag == tag && pairs_v(d.kind->Element_0.attrs@) == attrs,
            ContentV::Text(t) => d.kind is Text && d.kind->Text_0@ == t,
            ContentV::Comment(t) => d.kind is Comment && d.kind->Comment_0@ == t,
        }
}
pub open spec fn below(c: ContentV) -> Seq<ContentV> {
    match c { ContentV::Element { tag, attrs, children } => children, _ => Seq::empty() }
}
/// Below `n`, and made of nodes that `a` does not have, stands `c`.
pub open spec fn built<'a>(a: DocM<'a>, b: DocM<'a>, n: NodeId, c: ContentV) -> bool
    decreases c
{
    &&& !a.has(n) && b.has(n) && says(b.data(n), c)
    &&& match c {
            ContentV::Element { tag, attrs, children } => b.kids(n).len() == children.len()
                && forall|i: int| #![trigger b.kids(n)[i]] #![trigger children[i]] 0 <= i < children.len() ==> built(a, b, b.kids(n)[i], children[i]),
            _ => b.kids(n).len() == 0,
        }
}
/// The first `k` children of `n`, built on top of `a`.
pub open spec fn built_kids<'a>(a: DocM<'a>, b: DocM<'a>, n: NodeId, c: Seq<ContentV>, k: int) -> bool {
    &&& b.kids(n).len() == k <= c.len()
    &&& forall|i: int| #![trigger b.kids(n)[i]] 0 <= i < k ==> built(a, b, b.kids(n)[i], c[i])
}
/// What was built stays built when only nodes of the base change, and the base may shrink.
pub proof fn built_keep<'a>(a: DocM<'a>, b: DocM<'a>, z: DocM<'a>, c: DocM<'a>, n: NodeId, x: ContentV)
    requires built(a, b, n, x),
        forall|y: NodeId| #![trigger z.has(y)] z.has(y) ==> a.has(y),
        forall|y: NodeId| #![trigger c.has(y)] b.has(y) && !a.has(y) ==> c.has(y),
        forall|y: NodeId| #![trigger c.data(y)] b.has(y) && !a.has(y) ==> c.data(y) == b.data(y),
        forall|y: NodeId| #![trigger c.kids(y)] b.has(y) && !a.has(y) ==> c.kids(y) == b.kids(y),
    ensures built(z, c, n, x)
    decreases x
{
    reveal_with_fuel(built, 2);
    match x {
        ContentV::Element { tag, attrs, children } => {
            assert forall|i: int| #![trigger children[i]] 0 <= i < children.len() implies built(z, c, c.kids(n)[i], children[i]) by {
                assert(built(a, b, b.kids(n)[i], children[i]));
                built_keep(a, b, z, c, b.kids(n)[i], children[i]);
            }
        }
        _ => {}
    }
}
/// One more child below the new node `n`: `b` after `k` children, `c` with the next content built, `d` with it appended.
pub proof fn child_step<'a>(z: DocM<'a>, a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, d: DocM<'a>, n: NodeId, x: NodeId, s: Seq<ContentV>, k: int)
    requires trees(a), trees(b), trees(c), created(z, a, n, a.data(n)), only_more_but(a, b, n), built_kids(a, b, n, s, k), k < s.len(),
        only_more(b, c), built(b, c, x, s[k]), c.par(x) is None,
        inserted(c, d, n, without(c.kids(n), x).len() as int, x)
    ensures built_kids(a, d, n, s, k + 1), only_more_but(a, d, n)
{
    assert(a.has(n));
    assert(b.has(n));
    assert(c.has(n));
    no_kid(c, n, x);
    assert(c.kids(n) == b.kids(n));
    assert(d.kids(n) =~= b.kids(n).push(x));
    assert(x != n);
    built_keep(b, c, a, d, x, s[k]);
    assert forall|i: int| #![trigger d.kids(n)[i]] 0 <= i < k + 1 implies built(a, d, d.kids(n)[i], s[i]) by {
        if i < k {
            let w = b.kids(n)[i];
            assert(built(a, b, w, s[i]));
            built_keep(a, b, a, d, w, s[i]);
        }
    }
}
/// All nodes of `a` as they were, except for the children of `n`.
pub open spec fn only_more_but<'a>(a: DocM<'a>, b: DocM<'a>, n: NodeId) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] a.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != n ==> b.kids(y) == a.kids(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == a.par(y)
}
pub proof fn built_end<'a>(z: DocM<'a>, a: DocM<'a>, b: DocM<'a>, n: NodeId, x: ContentV)
    requires created(z, a, n, a.data(n)), only_more_but(a, b, n), says(a.data(n), x), built_kids(a, b, n, below(x), below(x).len() as int)
    ensures built(z, b, n, x), only_more(z, b), b.par(n) is None
{
    reveal_with_fuel(built, 2);
    assert(a.has(n));
    assert(b.has(n));
    match x {
        ContentV::Element { tag, attrs, children } => {
            assert forall|i: int| #![trigger children[i]] 0 <= i < children.len() implies built(z, b, b.kids(n)[i], children[i]) by {
                let w = b.kids(n)[i];
                assert(built(a, b, w, children[i]));
                built_keep(a, b, z, b, w, children[i]);
            }
        }
        _ => {}
    }
    assert forall|y: NodeId| #![trigger b.kids(y)] z.has(y) implies b.kids(y) == z.kids(y) by { assert(a.has(y)); assert(a.kids(y) == z.kids(y)); }
    assert forall|y: NodeId| #![trigger b.par(y)] z.has(y) implies b.par(y) == z.par(y) by { assert(a.has(y)); assert(a.par(y) == z.par(y)); }
    assert forall|y: NodeId| #![trigger b.data(y)] z.has(y) implies b.data(y) == z.data(y) by { assert(a.has(y)); assert(a.data(y) == z.data(y)); }
    assert forall|y: NodeId| #![trigger b.has(y)] z.has(y) implies b.has(y) by { assert(a.has(y)); }
}
pub broadcast proof fn lemma_pairs_v(l: Seq<(QualName, Stem<'_>)>, s: Seq<AttrPair<'_>>)
    requires l.len() == s.len(), forall|i: int| #![trigger l[i]] #![trigger s[i]] 0 <= i < l.len() ==> l[i].0 == s[i].name && l[i].1@ == s[i].value@
    ensures #[trigger] pairs_v(l) == #[trigger] attrs_v(s)
{ assert(pairs_v(l) =~= attrs_v(s)); }

impl<'a> Document<'a> {
    //@fn Document::create_insert_content loops=1
    //@attr #[verifier::spinoff_prover]
    //@params content
    //@var node 0 new_node
    //@var child_node 0 create_insert_content
    //@spec
        requires trees(old(self).m())
        ensures r is Ok, // @H08
            built(old(self).m(), final(self).m(), r->Ok_0, content@), only_more(old(self).m(), final(self).m()), // @H08
            final(self).m().par(r->Ok_0) is None, // @H08
            trees(final(self).m()), same_doc(old(self), final(self)),
        decreases content
    //@start
        broadcast use {lemma_attrs_v, lemma_contents_v, lemma_element_v, lemma_pairs_v};
        let ghost z = self.m();
        let ghost all = content;
        proof { lemma_nested(content); }
    //@after new_node 0
        let ghost a = self.m();
    //@loop 0 owned
        yes
    //@loop 0 head
        invariant trees(z), trees(a), trees(self.m()), same_doc(old(self), self), created(z, a, node, a.data(node)), all is Element, all == content, __s0@ == all->children@,
            only_more_but(a, self.m(), node), built_kids(a, self.m(), node, contents_v(all->children@), __i0 as int), // @H08
    //@loop 0 start
        let ghost b = self.m();
        proof { lemma_nested(all); }
    //@after create_insert_content 0
        let ghost c = self.m();
        proof {
            above_same(b, c, child_node, node);
            if above(b, child_node, node) { above_has(b, child_node, node); }
        }
    //@loop 0 end
        proof { child_step(z, a, b, c, self.m(), node, child_node, contents_v(all->children@), __i0 - 1); } // @H08
    //@loop 0 after
        proof { built_end(z, a, self.m(), node, all@); } // @H08
    //@after new_node 1
        proof { built_end(z, self.m(), self.m(), node, all@); } // @H08
    //@after new_node 2
        proof { built_end(z, self.m(), self.m(), node, all@); } // @H08
    //@end
}

// ---------------------------------------------------------------- copying from another document
/// The same content, whoever owns the strings.
pub open spec fn alike(d: NodeData<'_>, e: NodeData<'_>) -> bool {
    &&& d.ns == e.ns
    &&& match d.kind {
            NodeKind::Element(x) => e.kind is Element && e.kind->Element_0.tag == x.tag && pairs_v(e.kind->Element_0.attrs@) == pairs_v(x.attrs@),
            NodeKind::Text(t) => e.kind is Text && e.kind->Text_0@ == t@,
            NodeKind::Comment(t) => e.kind is Comment && e.kind->Comment_0@ == t@,
            NodeKind::Document => e.kind is Document,
        }
}
/// Below `n`, and made of nodes that `a` does not have, stands a copy of what is below `x` in `w`.
pub open spec fn copied<'a, 'b>(a: DocM<'a>, b: DocM<'a>, n: NodeId, w: DocM<'b>, x: NodeId) -> bool
    decreases w.top - w.depth(x)
{
    &&& !a.has(n) && b.has(n) && alike(w.data(x), b.data(n)) && b.kids(n).len() == w.kids(x).len()
    &&& forall|i: int| #![trigger b.kids(n)[i]] #![trigger w.kids(x)[i]] 0 <= i < w.kids(x).len() ==>
            w.depth(x) < w.depth(w.kids(x)[i]) <= w.top && copied(a, b, b.kids(n)[i], w, w.kids(x)[i])
}
pub open spec fn copied_kids<'a, 'b>(a: DocM<'a>, b: DocM<'a>, n: NodeId, w: DocM<'b>, x: NodeId, k: int) -> bool {
    &&& b.kids(n).len() == k <= w.kids(x).len()
    &&& forall|i: int| #![trigger b.kids(n)[i]] 0 <= i < k ==> copied(a, b, b.kids(n)[i], w, w.kids(x)[i])
}
pub proof fn copied_keep<'a, 'b>(a: DocM<'a>, b: DocM<'a>, z: DocM<'a>, c: DocM<'a>, n: NodeId, w: DocM<'b>, x: NodeId)
    requires copied(a, b, n, w, x),
        forall|y: NodeId| #![trigger z.has(y)] z.has(y) ==> a.has(y),
        forall|y: NodeId| #![trigger c.has(y)] b.has(y) && !a.has(y) ==> c.has(y),
        forall|y: NodeId| #![trigger c.data(y)] b.has(y) && !a.has(y) ==> c.data(y) == b.data(y),
        forall|y: NodeId| #![trigger c.kids(y)] b.has(y) && !a.has(y) ==> c.kids(y) == b.kids(y),
    ensures copied(z, c, n, w, x)
    decreases w.top - w.depth(x)
{
    reveal_with_fuel(copied, 2);
    assert forall|i: int| #![trigger w.kids(x)[i]] 0 <= i < w.kids(x).len() implies copied(z, c, c.kids(n)[i], w, w.kids(x)[i]) by {
        assert(copied(a, b, b.kids(n)[i], w, w.kids(x)[i]));
        copied_keep(a, b, z, c, b.kids(n)[i], w, w.kids(x)[i]);
    }
}
pub proof fn copy_step<'a, 'b>(a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, d: DocM<'a>, n: NodeId, y: NodeId, w: DocM<'b>, x: NodeId, k: int)
    requires trees(a), trees(b), trees(c), a.has(n), only_more_but(a, b, n), copied_kids(a, b, n, w, x, k), k < w.kids(x).len(),
        only_more(b, c), copied(b, c, y, w, w.kids(x)[k]), c.par(y) is None,
        inserted(c, d, n, without(c.kids(n), y).len() as int, y)
    ensures copied_kids(a, d, n, w, x, k + 1), only_more_but(a, d, n)
{
    assert(b.has(n));
    assert(c.has(n));
    no_kid(c, n, y);
    assert(c.kids(n) == b.kids(n));
    assert(d.kids(n) =~= b.kids(n).push(y));
    assert(y != n);
    copied_keep(b, c, a, d, y, w, w.kids(x)[k]);
    assert forall|i: int| #![trigger d.kids(n)[i]] 0 <= i < k + 1 implies copied(a, d, d.kids(n)[i], w, w.kids(x)[i]) by {
        if i < k {
            let v = b.kids(n)[i];
            assert(copied(a, b, v, w, w.kids(x)[i]));
            copied_keep(a, b, a, d, v, w, w.kids(x)[i]);
        }
    }
}
pub proof fn copy_end<'a, 'b>(z: DocM<'a>, a: DocM<'a>, b: DocM<'a>, n: NodeId, w: DocM<'b>, x: NodeId)
    requires trees(w), w.has(x), created(z, a, n, a.data(n)), only_more_but(a, b, n), alike(w.data(x), a.data(n)), copied_kids(a, b, n, w, x, w.kids(x).len() as int)
    ensures copied(z, b, n, w, x), only_more(z, b), b.par(n) is None
{
    reveal_with_fuel(copied, 2);
    assert(a.has(n));
    assert(b.has(n));
    assert forall|i: int| #![trigger w.kids(x)[i]] 0 <= i < w.kids(x).len() implies
        w.depth(x) < w.depth(w.kids(x)[i]) <= w.top && copied(z, b, b.kids(n)[i], w, w.kids(x)[i]) by {
        kid_depth(w, x, i);
        let v = b.kids(n)[i];
        assert(copied(a, b, v, w, w.kids(x)[i]));
        copied_keep(a, b, z, b, v, w, w.kids(x)[i]);
    }
    assert forall|y: NodeId| #![trigger b.kids(y)] z.has(y) implies b.kids(y) == z.kids(y) by { assert(a.has(y)); assert(a.kids(y) == z.kids(y)); }
    assert forall|y: NodeId| #![trigger b.par(y)] z.has(y) implies b.par(y) == z.par(y) by { assert(a.has(y)); assert(a.par(y) == z.par(y)); }
    assert forall|y: NodeId| #![trigger b.data(y)] z.has(y) implies b.data(y) == z.data(y) by { assert(a.has(y)); assert(a.data(y) == z.data(y)); }
    assert forall|y: NodeId| #![trigger b.has(y)] z.has(y) implies b.has(y) by { assert(a.has(y)); }
}
pub broadcast proof fn lemma_pairs_v2(l: Seq<(QualName, Stem<'_>)>, s: Seq<(QualName, Stem<'_>)>)
    requires l.len() == s.len(), forall|i: int| #![trigger l[i]] #![trigger s[i]] 0 <= i < l.len() ==> l[i].0 == s[i].0 && l[i].1@ == s[i].1@
    ensures #[trigger] pairs_v(l) == #[trigger] pairs_v(s)
{ assert(pairs_v(l) =~= pairs_v(s)); }

impl<'a> Document<'a> {
    //@fn Document::clone_subtree_from loops=1
    //@attr #[verifier::spinoff_prover]
    //@params source source_id
    //@var new_node 0 new_node
    //@var cloned_child 0 clone_subtree_from
    //@closure 0 ensures
        r.0 == __c0_0.0 && r.1@ == __c0_0.1@
    //@closure 0 type
        (QualName, Stem<'a>)
    //@spec
        requires trees(old(self).m()), trees(source.m()), source.m().has(source_id)
        ensures copied(old(self).m(), final(self).m(), r, source.m(), source_id), // @H08
            only_more(old(self).m(), final(self).m()), final(self).m().par(r) is None, // @H08
            trees(final(self).m()), same_doc(old(self), final(self)),
        decreases source.m().top - source.m().depth(source_id)
    //@start
        broadcast use lemma_pairs_v2;
        let ghost z = self.m();
    //@after new_node 0
        let ghost a = self.m();
    //@loop 0 head
        invariant trees(z), trees(a), trees(self.m()), same_doc(old(self), self), created(z, a, new_node, a.data(new_node)),
            trees(source.m()), source.m().has(source_id), __s0@ == source.m().kids(source_id),
            only_more_but(a, self.m(), new_node), copied_kids(a, self.m(), new_node, source.m(), source_id, __i0 as int), // @H08
    //@loop 0 start
        let ghost b = self.m();
        proof { kid_depth(source.m(), source_id, __i0 - 1); }
    //@after clone_subtree_from 0
        let ghost c = self.m();
        proof {
            above_same(b, c, cloned_child, new_node);
            if above(b, cloned_child, new_node) { above_has(b, cloned_child, new_node); }
        }
    //@loop 0 end
        proof { copy_step(a, b, c, self.m(), new_node, cloned_child, source.m(), source_id, __i0 - 1); } // @H08
    //@loop 0 after
        proof { copy_end(z, a, self.m(), new_node, source.m(), source_id); } // @H08
    //@end
}

// ---------------------------------------------------------------- what each patch does
pub open spec fn unchanged<'a>(a: DocM<'a>, b: DocM<'a>) -> bool {
    &&& same_nodes(a, b)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == a.par(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] b.kids(y) == a.kids(y)
}
/// `x` left its parent; an empty text node took its place when `blank`.
pub open spec fn lifted<'a>(a: DocM<'a>, b: DocM<'a>, x: NodeId, blank: bool) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] a.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == (if y == x { None } else { a.par(y) })
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && a.par(x) != Some(y) ==> b.kids(y) == a.kids(y)
    &&& a.par(x) is Some ==> {
            let q = a.par(x)->0;
            let i = a.kids(q).index_of(x);
            if blank {
                let e = b.kids(q)[i];
                b.kids(q) == a.kids(q).update(i, e) && !a.has(e) && b.has(e) && b.par(e) == Some(q) && empty_text(b.data(e)) && b.kids(e).len() == 0
            } else { b.kids(q) == a.kids(q).remove(i) }
        }
}
/// More than the name of a slot.
pub open spec fn deep(path: Seq<u32>) -> bool { path.len() > 1 }
/// A new node standing for `c` was put at the place the path names.
pub open spec fn put_new<'a>(a: DocM<'a>, s: Slots, path: Seq<u32>, c: ContentV, slot: Option<u32>, b: DocM<'a>, t: Slots, ok: bool) -> bool {
    match place(a, s, path) {
        Some(x) => ok && exists|n: NodeId| #[trigger] built(a, b, n, c) && put(a, s, b, t, x, n, slot),
        None => !ok && only_more(a, b) && t == s,
    }
}
pub open spec fn moved<'a>(a: DocM<'a>, s: Slots, from: Seq<u32>, to: Seq<u32>, slot: Option<u32>, b: DocM<'a>, t: Slots, ok: bool) -> bool {
    match nav(a, s, from) {
        Some(x) => exists|c: DocM<'a>| #[trigger] lifted(a, c, x, deep(from)) && trees(c) && match place(c, s, to) {
            Some(y) => ok && put(c, s, b, t, y, x, slot),
            None => !ok && b == c && t == s,
        },
        None => !ok && b == a && t == s,
    }
}
/// Only what `x` itself says changed.
pub open spec fn told<'a>(a: DocM<'a>, b: DocM<'a>, x: NodeId) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == a.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] y != x ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == a.par(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] b.kids(y) == a.kids(y)
}
pub open spec fn text_set(d: NodeData<'_>, e: NodeData<'_>, v: Seq<char>) -> bool {
    e.ns == d.ns && match d.kind {
        NodeKind::Text(_) => e.kind is Text && e.kind->Text_0@ == v,
        NodeKind::Comment(_) => e.kind is Comment && e.kind->Comment_0@ == v,
        _ => e == d,
    }
}
pub open spec fn worded(d: NodeData<'_>) -> bool { d.kind is Text || d.kind is Comment }
pub open spec fn attr_set(o: Seq<(QualName, Stem<'_>)>, n: Seq<(QualName, Stem<'_>)>, name: QualName, v: Seq<char>) -> bool {
    (exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == name && (forall|j: int| 0 <= j < i ==> (#[trigger] o[j]).0 != name)
        && n == o.update(i, n[i]) && n[i].0 == name && n[i].1@ == v)
    || ((forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).0 != name) && n == o.push(n.last()) && n.last().0 == name && n.last().1@ == v)
}
/// Same element, other attributes.
pub open spec fn reattr(d: NodeData<'_>, e: NodeData<'_>) -> bool {
    d.kind is Element && e.kind is Element && e.kind->Element_0.tag == d.kind->Element_0.tag && e.ns == d.ns
}
pub open spec fn attr_gone(d: NodeData<'_>, e: NodeData<'_>, name: QualName) -> bool {
    reattr(d, e) && e.kind->Element_0.attrs@ == d.kind->Element_0.attrs@.filter(|x: (QualName, Stem<'_>)| x.0 != name)
}
/// The value of the first attribute with that name, empty when there is none.
pub open spec fn attr_val(o: Seq<AttrV>, q: QualName) -> Seq<char>
    decreases o.len()
{
    if o.len() == 0 { Seq::empty() } else if o[0].0 == q { o[0].1 } else { attr_val(o.skip(1), q) }
}
/// The attributes after an update: exactly the named ones, in order; unchanged ones keep their value.
pub open spec fn rebuilt(o: Seq<AttrV>, ch: Seq<ChangeV>) -> Seq<AttrV>
    decreases ch.len()
{
    if ch.len() == 0 { Seq::empty() } else {
        let r = rebuilt(o, ch.drop_last());
        match ch.last().0 {
            PropKey::Attr(q) => r.push((q, match ch.last().1 { Some(v) => v, None => attr_val(o, q) })),
            PropKey::Text => r,
        }
    }
}
/// What the first change of the text says, if any.
pub open spec fn new_text(ch: Seq<ChangeV>) -> Option<Seq<char>>
    decreases ch.len()
{
    if ch.len() == 0 { None } else if ch[0].0 is Text { ch[0].1 } else { new_text(ch.skip(1)) }
}
pub open spec fn updated(d: NodeData<'_>, e: NodeData<'_>, ch: Seq<ChangeV>) -> bool {
    match d.kind {
        NodeKind::Element(x) => reattr(d, e) && pairs_v(e.kind->Element_0.attrs@) == rebuilt(pairs_v(x.attrs@), ch),
        NodeKind::Document => e == d,
        _ => match new_text(ch) { Some(v) => text_set(d, e, v), None => e == d },
    }
}
/// The children of `x` were exchanged for new nodes.
pub open spec fn refilled<'a>(a: DocM<'a>, b: DocM<'a>, x: NodeId) -> bool {
    &&& forall|y: NodeId| #![trigger b.has(y)] a.has(y) ==> b.has(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == a.data(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] a.has(y) ==> b.par(y) == (if a.par(y) == Some(x) { None } else { a.par(y) })
    &&& forall|y: NodeId| #![trigger b.kids(y)] a.has(y) && y != x ==> b.kids(y) == a.kids(y)
    &&& forall|i: int| #![trigger b.kids(x)[i]] 0 <= i < b.kids(x).len() ==> !a.has(b.kids(x)[i])
}
/// The data of the node at `path` was changed as `f` says, or there was no such node.
pub open spec fn at_node<'a>(a: DocM<'a>, s: Slots, path: Seq<u32>, b: DocM<'a>, t: Slots, ok: bool, can: spec_fn(NodeData<'a>) -> bool, f: spec_fn(NodeData<'a>, NodeData<'a>) -> bool) -> bool {
    &&& t == s
    &&& match nav(a, s, path) {
            Some(x) => told(a, b, x) && (if can(a.data(x)) { ok && f(a.data(x), b.data(x)) } else { !ok && b.data(x) == a.data(x) }),
            None => !ok && b == a,
        }
}
pub open spec fn applied<'a>(a: DocM<'a>, s: Slots, p: PatchV, b: DocM<'a>, t: Slots, ok: bool) -> bool {
    match p {
        PatchV::InsertElement { at, tag, attrs, children, detach_to_slot } => put_new(a, s, at.0.0@, ContentV::Element { tag, attrs, children }, detach_to_slot, b, t, ok),
        PatchV::InsertText { at, text, detach_to_slot } => put_new(a, s, at.0.0@, ContentV::Text(text), detach_to_slot, b, t, ok),
        PatchV::InsertComment { at, text, detach_to_slot } => put_new(a, s, at.0.0@, ContentV::Comment(text), detach_to_slot, b, t, ok),
        PatchV::Remove { node } => t == s && match nav(a, s, node.0.0@) { Some(x) => ok && lifted(a, b, x, true), None => !ok && b == a },
        PatchV::SetText { path, text } => at_node(a, s, path.0@, b, t, ok, |d: NodeData<'a>| worded(d), |d: NodeData<'a>, e: NodeData<'a>| text_set(d, e, text)),
        PatchV::SetAttribute { path, name, value } => at_node(a, s, path.0@, b, t, ok, |d: NodeData<'a>| d.kind is Element,
            |d: NodeData<'a>, e: NodeData<'a>| reattr(d, e) && attr_set(d.kind->Element_0.attrs@, e.kind->Element_0.attrs@, name, value)),
        PatchV::RemoveAttribute { path, name } => at_node(a, s, path.0@, b, t, ok, |d: NodeData<'a>| d.kind is Element,
            |d: NodeData<'a>, e: NodeData<'a>| attr_gone(d, e, name)),
        PatchV::Move { from, to, detach_to_slot } => moved(a, s, from.0.0@, to.0.0@, detach_to_slot, b, t, ok),
        PatchV::UpdateProps { path, changes } => at_node(a, s, path.0@, b, t, ok, |d: NodeData<'a>| true,
            |d: NodeData<'a>, e: NodeData<'a>| updated(d, e, changes)),
        PatchV::OpaqueChanged { path, content } => t == s && match nav(a, s, path.0@) { Some(x) => ok && refilled(a, b, x), None => !ok && b == a },
    }
}
/// A move never puts a node below itself.
pub open spec fn sound<'a>(a: DocM<'a>, s: Slots, p: PatchV) -> bool {
    match p {
        PatchV::Move { from, to, detach_to_slot } => match nav(a, s, from.0.0@) {
            Some(x) => forall|c: DocM<'a>| #[trigger] lifted(a, c, x, deep(from.0.0@)) && trees(c) ==>
                match place(c, s, to.0.0@) { Some(y) => !above(c, x, y.0), None => true },
            None => true,
        },
        _ => true,
    }
}

pub proof fn walk_same<'a>(a: DocM<'a>, b: DocM<'a>, r: NodeId, p: Seq<u32>)
    requires trees(a), a.has(r), only_more(a, b)
    ensures walk(b, r, p) == walk(a, r, p)
    decreases p.len()
{
    if p.len() > 0 { walk_same(a, b, r, p.drop_last()); walk_in(a, r, p.drop_last()); }
}
pub proof fn nav_same<'a>(a: DocM<'a>, b: DocM<'a>, s: Slots, path: Seq<u32>)
    requires trees(a), slots_ok(a, s), only_more(a, b)
    ensures nav(b, s, path) == nav(a, s, path)
{
    if path.len() > 0 && s.contains_key(path[0]) { walk_same(a, b, s[path[0]], path.skip(1)); }
}
pub proof fn insert_ready<'a>(a: DocM<'a>, b: DocM<'a>, s: Slots, path: Seq<u32>, n: NodeId)
    requires trees(a), slots_ok(a, s), only_more(a, b), !a.has(n)
    ensures place(b, s, path) == place(a, s, path), slots_ok(b, s),
        match place(b, s, path) { Some(x) => !above(b, n, x.0), None => true },
{
    nav_same(a, b, s, path.drop_last());
    place_in(a, s, path);
    assert forall|q: u32| #![trigger s[q]] s.contains_key(q) implies b.has(s[q]) by { assert(a.has(s[q])); }
    match place(a, s, path) {
        Some(x) => { above_same(a, b, n, x.0); if above(a, n, x.0) { above_has(a, n, x.0); } }
        None => {}
    }
}
pub proof fn insert_end<'a>(a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, s: Slots, t: Slots, path: Seq<u32>, n: NodeId, x: ContentV, slot: Option<u32>)
    requires trees(a), trees(b), slots_ok(a, s), only_more(a, b), built(a, b, n, x), b.par(n) is None, place(a, s, path) is Some,
        put(b, s, c, t, place(a, s, path)->0, n, slot)
    ensures put_new(a, s, path, x, slot, c, t, true)
{
    let at = place(a, s, path)->0;
    place_in(a, s, path);
    assert(a.has(at.0));
    assert(b.kids(at.0) == a.kids(at.0));
    assert(0 <= at.1);
    if slot is Some && at.1 < a.kids(at.0).len() { kid_index(a, at.0, at.1); }
    assert forall|y: NodeId| #![trigger c.has(y)] b.has(y) && !a.has(y) implies c.has(y) by {}
    built_keep(a, b, a, c, n, x);
    assert forall|y: NodeId| #![trigger c.has(y)] a.has(y) implies c.has(y) by { assert(b.has(y)); }
    assert forall|y: NodeId| #![trigger c.data(y)] a.has(y) implies c.data(y) == a.data(y) by { assert(b.has(y)); assert(b.data(y) == a.data(y)); }
    assert forall|y: NodeId| #![trigger c.kids(y)] a.has(y) && y != at.0 implies c.kids(y) == a.kids(y) by { assert(b.has(y)); assert(b.kids(y) == a.kids(y)); }
    if slot is Some && at.1 < a.kids(at.0).len() {
        assert(replaced(a, c, at.0, at.1, n)) by {
            assert forall|y: NodeId| #![trigger c.par(y)] a.has(y) && y != n && y != a.kids(at.0)[at.1] implies c.par(y) == a.par(y) by { assert(b.has(y)); assert(b.par(y) == a.par(y)); }
        }
    } else {
        assert(placed(a, c, at.0, at.1, n)) by {
            assert forall|y: NodeId| #![trigger c.par(y)] a.has(y) && y != n implies c.par(y) == a.par(y) by { assert(b.has(y)); assert(b.par(y) == a.par(y)); }
            if at.1 > a.kids(at.0).len() {
                assert forall|i: int| #![trigger c.kids(at.0)[i]] a.kids(at.0).len() <= i < at.1 implies
                    !a.has(c.kids(at.0)[i]) && empty_text(c.data(c.kids(at.0)[i])) && c.kids(c.kids(at.0)[i]).len() == 0 by {
                    if a.has(c.kids(at.0)[i]) { assert(b.has(c.kids(at.0)[i])); }
                }
            }
        }
    }
    assert(put(a, s, c, t, at, n, slot));
}
pub proof fn lift_blank<'a>(a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, d: DocM<'a>, x: NodeId, e: NodeId)
    requires trees(a), trees(b), trees(c), a.has(x), created(a, b, e, b.data(e)), empty_text(b.data(e)),
        a.par(x) is Some ==> inserted(b, c, a.par(x)->0, without(b.kids(a.par(x)->0), e).index_of(x), e),
        a.par(x) is None ==> detached(b, c, e),
        detached(c, d, x)
    ensures lifted(a, d, x, true)
{
    if a.par(x) is Some {
        let q = a.par(x)->0;
        assert(a.has(q));
        no_kid(b, q, e);
        let o = a.kids(q);
        let i = o.index_of(x);
        assert(o.contains(x));
        assert(0 <= i < o.len() && o[i] == x);
        assert(c.kids(q) == o.insert(i, e));
        assert(c.kids(q)[i + 1] == x);
        assert(c.has(q)) by { assert(b.has(q)); }
        assert(c.par(x) == Some(q)) by { assert(b.par(x) == Some(q)); }
        kid_index(c, q, i + 1);
        assert(d.kids(q) =~= o.update(i, e));
        assert(d.kids(e).len() == 0) by { assert(c.kids(e) == b.kids(e)); }
        assert(empty_text(d.data(e))) by { assert(c.data(e) == b.data(e)); }
        assert forall|y: NodeId| #![trigger d.kids(y)] a.has(y) && a.par(x) != Some(y) implies d.kids(y) == a.kids(y) by { assert(b.kids(y) == a.kids(y)); assert(c.kids(y) == b.kids(y)); }
    } else {
        assert forall|y: NodeId| #![trigger d.kids(y)] a.has(y) && a.par(x) != Some(y) implies d.kids(y) == a.kids(y) by { assert(b.kids(y) == a.kids(y)); assert(c.kids(y) == b.kids(y)); }
    }
    assert forall|y: NodeId| #![trigger d.par(y)] a.has(y) implies d.par(y) == (if y == x { None } else { a.par(y) }) by { assert(b.par(y) == a.par(y)); assert(y != e); assert(c.par(y) == b.par(y)); }
    assert forall|y: NodeId| #![trigger d.data(y)] a.has(y) implies d.data(y) == a.data(y) by { assert(b.data(y) == a.data(y)); assert(c.data(y) == b.data(y)); }
    assert forall|y: NodeId| #![trigger d.has(y)] a.has(y) implies d.has(y) by { assert(b.has(y)); assert(c.has(y)); }
}

pub broadcast proof fn lemma_pairs_push(o: Seq<(QualName, Stem<'_>)>, x: (QualName, Stem<'_>))
    ensures #[trigger] pairs_v(o.push(x)) == pairs_v(o).push((x.0, x.1@))
{ assert(pairs_v(o.push(x)) =~= pairs_v(o).push((x.0, x.1@))); }
pub proof fn attr_val_at(o: Seq<AttrV>, q: QualName, i: int)
    requires 0 <= i < o.len(), o[i].0 == q, forall|j: int| 0 <= j < i ==> (#[trigger] o[j]).0 != q
    ensures attr_val(o, q) == o[i].1
    decreases o.len()
{
    if i > 0 {
        assert(o[0].0 != q);
        assert forall|j: int| 0 <= j < i - 1 implies (#[trigger] o.skip(1)[j]).0 != q by { assert(o[j + 1].0 != q); }
        attr_val_at(o.skip(1), q, i - 1);
    }
}
pub proof fn attr_val_none(o: Seq<AttrV>, q: QualName)
    requires forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]).0 != q
    ensures attr_val(o, q) == Seq::<char>::empty()
    decreases o.len()
{
    if o.len() > 0 {
        assert(o[0].0 != q);
        assert forall|j: int| 0 <= j < o.len() - 1 implies (#[trigger] o.skip(1)[j]).0 != q by { assert(o[j + 1].0 != q); }
        attr_val_none(o.skip(1), q);
    }
}
pub proof fn new_text_at(ch: Seq<ChangeV>, i: int)
    requires 0 <= i < ch.len(), ch[i].0 is Text, forall|j: int| 0 <= j < i ==> !((#[trigger] ch[j]).0 is Text)
    ensures new_text(ch) == ch[i].1
    decreases ch.len()
{
    if i > 0 {
        assert(!(ch[0].0 is Text));
        assert forall|j: int| 0 <= j < i - 1 implies !((#[trigger] ch.skip(1)[j]).0 is Text) by { assert(!(ch[j + 1].0 is Text)); }
        new_text_at(ch.skip(1), i - 1);
    }
}
pub proof fn new_text_none(ch: Seq<ChangeV>)
    requires forall|j: int| 0 <= j < ch.len() ==> !((#[trigger] ch[j]).0 is Text)
    ensures new_text(ch) is None
    decreases ch.len()
{
    if ch.len() > 0 {
        assert(!(ch[0].0 is Text));
        assert forall|j: int| 0 <= j < ch.len() - 1 implies !((#[trigger] ch.skip(1)[j]).0 is Text) by { assert(!(ch[j + 1].0 is Text)); }
        new_text_none(ch.skip(1));
    }
}
/// Looking an attribute up by name.
pub proof fn attr_vals(l: Seq<(QualName, Stem<'_>)>)
    ensures forall|i: int, q: QualName| #![trigger l[i], attr_val(pairs_v(l), q)] 0 <= i < l.len() && l[i].0 == q && (forall|j: int| 0 <= j < i ==> (#[trigger] l[j]).0 != q)
                ==> attr_val(pairs_v(l), q) == l[i].1@,
        forall|q: QualName| #![trigger attr_val(pairs_v(l), q)] (forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).0 != q) ==> attr_val(pairs_v(l), q) == Seq::<char>::empty(),
{
    assert forall|i: int, q: QualName| #![trigger l[i], attr_val(pairs_v(l), q)] 0 <= i < l.len() && l[i].0 == q && (forall|j: int| 0 <= j < i ==> (#[trigger] l[j]).0 != q)
        implies attr_val(pairs_v(l), q) == l[i].1@ by {
        assert forall|j: int| 0 <= j < i implies (#[trigger] pairs_v(l)[j]).0 != q by { assert(l[j].0 != q); }
        attr_val_at(pairs_v(l), q, i);
    }
    assert forall|q: QualName| #![trigger attr_val(pairs_v(l), q)] (forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).0 != q) implies attr_val(pairs_v(l), q) == Seq::<char>::empty() by {
        assert forall|j: int| 0 <= j < l.len() implies (#[trigger] pairs_v(l)[j]).0 != q by { assert(l[j].0 != q); }
        attr_val_none(pairs_v(l), q);
    }
}
/// Looking the text up.
pub proof fn new_texts(l: Seq<PropChange<'_>>)
    ensures forall|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].name is Text && (forall|j: int| 0 <= j < i ==> !((#[trigger] l[j]).name is Text))
                ==> new_text(changes_v(l)) == l[i]@.1,
        (forall|j: int| 0 <= j < l.len() ==> !((#[trigger] l[j]).name is Text)) ==> new_text(changes_v(l)) is None,
{
    assert forall|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].name is Text && (forall|j: int| 0 <= j < i ==> !((#[trigger] l[j]).name is Text))
        implies new_text(changes_v(l)) == l[i]@.1 by {
        assert forall|j: int| 0 <= j < i implies !((#[trigger] changes_v(l)[j]).0 is Text) by { assert(!(l[j].name is Text)); }
        new_text_at(changes_v(l), i);
    }
    if forall|j: int| 0 <= j < l.len() ==> !((#[trigger] l[j]).name is Text) {
        assert forall|j: int| 0 <= j < l.len() implies !((#[trigger] changes_v(l)[j]).0 is Text) by { assert(!(l[j].name is Text)); }
        new_text_none(changes_v(l));
    }
}
/// After the first `k` children of `x` were detached.
pub open spec fn emptied<'a>(a: DocM<'a>, b: DocM<'a>, x: NodeId, k: int) -> bool {
    &&& same_nodes(a, b)
    &&& b.kids(x) == a.kids(x).skip(k)
    &&& forall|y: NodeId| #![trigger b.kids(y)] y != x ==> b.kids(y) == a.kids(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == (if a.kids(x).take(k).contains(y) { None } else { a.par(y) })
}
pub proof fn empty_step<'a>(a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, x: NodeId, k: int)
    requires trees(a), trees(b), a.has(x), 0 <= k < a.kids(x).len(), emptied(a, b, x, k), detached(b, c, a.kids(x)[k])
    ensures emptied(a, c, x, k + 1), b.has(a.kids(x)[k])
{
    let d = a.kids(x)[k];
    kid_index(a, x, k);
    assert(a.kids(x).skip(k)[0] == d);
    assert(b.has(x));
    kid_index(b, x, 0);
    assert(b.par(d) == Some(x));
    assert(c.kids(x) =~= a.kids(x).skip(k + 1));
    assert(a.kids(x).take(k + 1) =~= a.kids(x).take(k).push(d));
    assert forall|y: NodeId| #![trigger c.par(y)] c.par(y) == (if a.kids(x).take(k + 1).contains(y) { None } else { a.par(y) }) by {
        assert(a.kids(x).take(k).push(d).contains(y) == (a.kids(x).take(k).contains(y) || y == d)) by {
            if a.kids(x).take(k).contains(y) { let j = choose|j: int| 0 <= j < k && a.kids(x).take(k)[j] == y; assert(a.kids(x).take(k).push(d)[j] == y); }
            if y == d { assert(a.kids(x).take(k).push(d)[k] == y); }
        }
    }
}
pub proof fn empty_end<'a>(a: DocM<'a>, b: DocM<'a>, x: NodeId)
    requires trees(a), a.has(x), emptied(a, b, x, a.kids(x).len() as int)
    ensures refilled(a, b, x)
{
    assert(a.kids(x).take(a.kids(x).len() as int) =~= a.kids(x));
    assert forall|y: NodeId| #![trigger b.par(y)] a.has(y) implies b.par(y) == (if a.par(y) == Some(x) { None } else { a.par(y) }) by {
        if a.par(y) == Some(x) { assert(a.kids(x).contains(y)); }
        else { no_kid(a, x, y); }
    }
}
pub proof fn refill_step<'a>(a: DocM<'a>, b: DocM<'a>, c: DocM<'a>, d: DocM<'a>, x: NodeId, n: NodeId)
    requires trees(a), trees(b), trees(c), a.has(x), refilled(a, b, x), only_more(b, c), !b.has(n), c.par(n) is None,
        inserted(c, d, x, without(c.kids(x), n).len() as int, n)
    ensures refilled(a, d, x)
{
    assert(b.has(x));
    assert(c.has(x));
    no_kid(c, x, n);
    assert(d.kids(x) =~= b.kids(x).push(n));
    if a.has(n) { assert(b.has(n)); }
    assert forall|y: NodeId| #![trigger d.kids(y)] a.has(y) && y != x implies d.kids(y) == a.kids(y) by { assert(b.has(y)); assert(b.kids(y) == a.kids(y)); assert(c.kids(y) == b.kids(y)); }
    assert forall|y: NodeId| #![trigger d.par(y)] a.has(y) implies d.par(y) == (if a.par(y) == Some(x) { None } else { a.par(y) }) by { assert(b.has(y)); assert(c.par(y) == b.par(y)); }
    assert forall|y: NodeId| #![trigger d.data(y)] a.has(y) implies d.data(y) == a.data(y) by { assert(b.has(y)); assert(c.data(y) == b.data(y)); }
    assert forall|y: NodeId| #![trigger d.has(y)] a.has(y) implies d.has(y) by { assert(b.has(y)); assert(c.has(y)); }
}

impl<'a> Document<'a> {
    //@fn Document::apply_patch loops=4
    //@attr #[verifier::spinoff_prover]
    //@params patch slots
    //@spec
        requires trees(old(self).m()), slots_ok(old(self).m(), old(slots)@), sound(old(self).m(), old(slots)@, patch@)
        ensures applied(old(self).m(), old(slots)@, patch@, final(self).m(), final(slots)@, r is Ok), // @H08
            trees(final(self).m()), slots_ok(final(self).m(), final(slots)@), same_doc(old(self), final(self)), // @H08
    //@start
        broadcast use {lemma_attrs_v, lemma_contents_v, lemma_element_v, lemma_pairs_v, lemma_pairs_push};
        let ghost z = self.m();
        let ghost s0 = slots@;
        let ghost all = patch@;
        let ghost pat = patch;
        proof { nav_all(z, s0); if pat is UpdateProps { new_texts(pat->UpdateProps_changes@); } }
    //@after new_node 0
        let ghost a = self.m();
    //@loop 0 owned
        yes
    //@loop 0 head
        invariant trees(z), trees(a), trees(self.m()), same_doc(old(self), self), created(z, a, new_node, a.data(new_node)), __s0@ == pat->InsertElement_children@,
            pat is InsertElement,
            only_more_but(a, self.m(), new_node), built_kids(a, self.m(), new_node, contents_v(pat->InsertElement_children@), __i0 as int), // @H08
    //@loop 0 start
        let ghost b = self.m();
    //@after create_insert_content 0
        let ghost c = self.m();
        proof {
            above_same(b, c, child_node, new_node);
            if above(b, child_node, new_node) { above_has(b, child_node, new_node); }
        }
    //@loop 0 end
        proof { child_step(z, a, b, c, self.m(), new_node, child_node, contents_v(pat->InsertElement_children@), __i0 - 1); } // @H08
    //@before insert_at 0
        let ghost b = self.m();
        let ghost x = ContentV::Element { tag: all->InsertElement_tag, attrs: all->InsertElement_attrs, children: all->InsertElement_children };
        proof {
            built_end(z, a, b, new_node, x); // @H08
            insert_ready(z, b, s0, at.0.0@, new_node);
        }
    //@after insert_at 0
        proof { insert_end(z, b, self.m(), s0, slots@, at.0.0@, new_node, x, detach_to_slot); } // @H08
    //@before insert_at 1
        let ghost b = self.m();
        let ghost x = ContentV::Text(all->InsertText_text);
        proof {
            built_end(z, b, b, new_node, x); // @H08
            insert_ready(z, b, s0, at.0.0@, new_node);
        }
    //@after insert_at 1
        proof { insert_end(z, b, self.m(), s0, slots@, at.0.0@, new_node, x, detach_to_slot); } // @H08
    //@before insert_at 2
        let ghost b = self.m();
        let ghost x = ContentV::Comment(all->InsertComment_text);
        proof {
            built_end(z, b, b, new_node, x); // @H08
            insert_ready(z, b, s0, at.0.0@, new_node);
        }
    //@after insert_at 2
        proof { insert_end(z, b, self.m(), s0, slots@, at.0.0@, new_node, x, detach_to_slot); } // @H08
    //@after new_node 3
        let ghost b = self.m();
        proof { new_above(z, b, empty_text, b.data(empty_text), node_id); }
    //@after insert_before 0
        let ghost c = self.m();
    //@after detach 0
        proof { lift_blank(z, b, c, self.m(), node_id, empty_text); } // @H08
    //@after new_node 4
        let ghost b = self.m();
        proof { new_above(z, b, empty_text, b.data(empty_text), node_to_move); }
    //@after insert_before 1
        let ghost c = self.m();
    //@after detach 1
        proof { lift_blank(z, b, c, self.m(), node_to_move, empty_text); } // @H08
    //@after detach 2
        proof { assert(lifted(z, self.m(), node_to_move, false)); } // @H08
    //@before insert_at 3
        let ghost d = self.m();
        proof {
            assert(lifted(z, d, node_to_move, deep(from_path@))); // @H08
        }
    //@loop 1 owned
        yes
    //@loop 1 pre
        let ghost ch = changes_v(pat->UpdateProps_changes@);
        let ghost tag = elem.tag;
        proof { assert(ch.take(0) =~= Seq::empty()); assert(pairs_v(elem.attrs@) =~= Seq::empty()); }
    //@loop 1 head
        invariant __s1@ == pat->UpdateProps_changes@, pat is UpdateProps, ch == changes_v(pat->UpdateProps_changes@), elem.tag == tag,
            pairs_v(elem.attrs@) == rebuilt(pairs_v(old_attrs@), ch.take(__i1 as int)), // @H08
    //@loop 1 start
        proof {
            assert(ch.take(__i1 as int).drop_last() =~= ch.take(__i1 - 1));
            assert(ch.take(__i1 as int).last() == change@);
            attr_vals(old_attrs@);
        }
    //@loop 1 after
        proof { assert(ch.take(ch.len() as int) =~= ch); }
    //@loop 2 head
        invariant trees(z), trees(self.m()), same_doc(old(self), self), z.has(node_id), __s2@ == z.kids(node_id), slots@ == s0, slots_ok(z, s0),
            emptied(z, self.m(), node_id, __i2 as int), // @H08
    //@loop 2 pre
        proof { assert(z.kids(node_id).skip(0) =~= z.kids(node_id)); assert(z.kids(node_id).take(0) =~= Seq::empty()); }
    //@loop 2 start
        let ghost b = self.m();
        proof { kid_index(z, node_id, __i2 - 1); }
    //@loop 2 end
        proof { empty_step(z, b, self.m(), node_id, __i2 - 1); } // @H08
    //@loop 2 after
        proof { empty_end(z, self.m(), node_id); } // @H08
    //@loop 3 head
        invariant trees(z), trees(self.m()), same_doc(old(self), self), z.has(node_id), slots@ == s0, slots_ok(z, s0),
            trees(wrapper_doc.m()), wrapper_doc.m().has(div_id), __s3@ == wrapper_doc.m().kids(div_id),
            refilled(z, self.m(), node_id), // @H08
    //@loop 3 start
        let ghost b = self.m();
        proof { kid_index(wrapper_doc.m(), div_id, __i3 - 1); }
    //@after clone_subtree_from 0
        let ghost c = self.m();
        proof {
            above_same(b, c, cloned, node_id);
            if above(b, cloned, node_id) { above_has(b, cloned, node_id); }
        }
    //@loop 3 end
        proof { refill_step(z, b, c, self.m(), node_id, cloned); } // @H08
    //@end
}

// ---------------------------------------------------------------- a whole run of patches
/// `x` is the body; it was made, as the last child of the root, when there was none.
pub open spec fn with_body<'a>(a: DocM<'a>, root: NodeId, b: DocM<'a>, x: NodeId) -> bool {
    if exists|i: int| 0 <= i < a.kids(root).len() && is_named(a, #[trigger] a.kids(root)[i], "body"@) {
        b == a && first_named(a, root, x, "body"@)
    } else {
        &&& only_more_but(a, b, root)
        &&& b.kids(root) == a.kids(root).push(x)
        &&& !a.has(x) && b.has(x) && is_named(b, x, "body"@) && b.kids(x).len() == 0 && b.par(x) == Some(root)
    }
}
pub open spec fn stage<'a>(c: DocM<'a>, u: Slots) -> bool { trees(c) && slots_ok(c, u) }
/// Applying the patches one after the other, each successfully, leads from (a, s) to (b, t).
pub open spec fn ran<'a>(a: DocM<'a>, s: Slots, ps: Seq<PatchV>, b: DocM<'a>, t: Slots) -> bool
    decreases ps.len()
{
    if ps.len() == 0 { b == a && t == s } else {
        exists|c: DocM<'a>, u: Slots| #[trigger] stage(c, u) && ran(a, s, ps.drop_last(), c, u) && applied(c, u, ps.last(), b, t, true)
    }
}
/// No patch, when its turn comes, moves a node below itself.
pub open spec fn run_ok<'a>(a: DocM<'a>, s: Slots, ps: Seq<PatchV>) -> bool {
    forall|k: int, c: DocM<'a>, u: Slots| 0 <= k < ps.len() && #[trigger] ran(a, s, ps.take(k), c, u) && stage(c, u) ==> sound(c, u, ps[k])
}
/// All patches were applied, or those before the first that could not be.
pub open spec fn ran_to<'a>(a: DocM<'a>, s: Slots, ps: Seq<PatchV>, b: DocM<'a>, ok: bool) -> bool {
    if ok { exists|t: Slots| ran(a, s, ps, b, t) } else {
        exists|k: int, c: DocM<'a>, u: Slots, t: Slots| 0 <= k < ps.len() && #[trigger] ran(a, s, ps.take(k), c, u) && stage(c, u) && #[trigger] applied(c, u, ps[k], b, t, false)
    }
}
pub open spec fn body_slot(x: NodeId) -> Slots { Map::empty().insert(0u32, x) }
pub open spec fn all_ran<'a>(a: DocM<'a>, root: NodeId, ps: Seq<PatchV>, b: DocM<'a>, ok: bool) -> bool {
    exists|c: DocM<'a>, x: NodeId| #[trigger] with_body(a, root, c, x) && ran_to(c, body_slot(x), ps, b, ok)
}
pub open spec fn patches_v(l: Seq<Patch<'_>>) -> Seq<PatchV> { Seq::new(l.len(), |i: int| l[i]@) }

pub proof fn ran_step<'a>(a: DocM<'a>, s: Slots, ps: Seq<PatchV>, i: int, c: DocM<'a>, u: Slots, b: DocM<'a>, t: Slots)
    requires 0 <= i < ps.len(), ran(a, s, ps.take(i), c, u), trees(c), slots_ok(c, u), applied(c, u, ps[i], b, t, true)
    ensures ran(a, s, ps.take(i + 1), b, t)
{
    reveal_with_fuel(ran, 2);
    assert(ps.take(i + 1).drop_last() =~= ps.take(i));
    assert(ps.take(i + 1).last() == ps[i]);
    assert(stage(c, u));
}
pub proof fn with_body_in<'a>(a: DocM<'a>, root: NodeId, b: DocM<'a>, x: NodeId)
    requires trees(a), a.has(root), with_body(a, root, b, x)
    ensures b.has(x), slots_ok(b, body_slot(x))
{
    if exists|i: int| 0 <= i < a.kids(root).len() && is_named(a, #[trigger] a.kids(root)[i], "body"@) {
        let i = choose|i: int| 0 <= i < a.kids(root).len() && #[trigger] a.kids(root)[i] == x;
        kid_index(a, root, i);
    }
}

impl<'a> Document<'a> {
    //@fn Document::ensure_body loops=0
    //@spec
        requires trees(old(self).m()), old(self).m().has(old(self).root)
        ensures with_body(old(self).m(), old(self).root, final(self).m(), r), // @H08
            trees(final(self).m()), same_doc(old(self), final(self)), // @H08
    //@start
        let ghost z = self.m();
    //@after new_node 0
        let ghost b = self.m();
        proof { new_above(z, b, body_id, b.data(body_id), self.root); no_kid(b, self.root, body_id); }
    //@tail
        proof { assert(self.m().kids(self.root) =~= z.kids(self.root).push(body_id)); }
    //@end
    //@fn Document::init_patch_slots loops=0
    //@spec
        requires trees(old(self).m()), old(self).m().has(old(self).root)
        ensures exists|x: NodeId| #[trigger] with_body(old(self).m(), old(self).root, final(self).m(), x) && r@ == body_slot(x), // @H08
            trees(final(self).m()), slots_ok(final(self).m(), r@), same_doc(old(self), final(self)), // @H08
    //@tail
        proof { assert(with_body(old(self).m(), old(self).root, self.m(), body_id)); with_body_in(old(self).m(), old(self).root, self.m(), body_id); assert(slots@ =~= body_slot(body_id)); }
    //@end
    //@fn Document::apply_patch_with_slots loops=0
    //@params patch slots
    //@spec
        requires trees(old(self).m()), slots_ok(old(self).m(), old(slots)@), sound(old(self).m(), old(slots)@, patch@)
        ensures applied(old(self).m(), old(slots)@, patch@, final(self).m(), final(slots)@, r is Ok), // @H08
            trees(final(self).m()), slots_ok(final(self).m(), final(slots)@), same_doc(old(self), final(self)), // @H08
    //@end
    //@fn Document::apply_patches loops=1
    //@attr #[verifier::loop_isolation(false)]
    //@params patches
    //@spec
        requires trees(old(self).m()), old(self).m().has(old(self).root),
            forall|c: DocM<'a>, x: NodeId| #[trigger] with_body(old(self).m(), old(self).root, c, x) ==> run_ok(c, body_slot(x), patches_v(patches@)),
        ensures patches@.len() == 0 ==> r is Ok && final(self).m() == old(self).m(), // @H08
            patches@.len() > 0 ==> all_ran(old(self).m(), old(self).root, patches_v(patches@), final(self).m(), r is Ok), // @H08
            trees(final(self).m()), same_doc(old(self), final(self)), // @H08
    //@start
        let ghost z = self.m();
        let ghost ps = patches_v(patches@);
        let ghost all = patches@;
    //@loop 0 owned
        yes
    //@loop 0 pre
        let ghost b = self.m();
        let ghost s = slots@;
        proof { assert(with_body(z, self.root, b, body_id)); assert(s =~= body_slot(body_id)); with_body_in(z, self.root, b, body_id); assert(ps.take(0) =~= Seq::empty()); }
    //@loop 0 head
        invariant trees(self.m()), slots_ok(self.m(), slots@), same_doc(old(self), self), with_body(z, old(self).root, b, body_id), z == old(self).m(), s == body_slot(body_id),
            ps == patches_v(all), __s0@ == all, run_ok(b, s, ps),
            ran(b, s, ps.take(__i0 as int), self.m(), slots@), // @H08
    //@loop 0 start
        let ghost c = self.m();
        let ghost u = slots@;
        proof { assert(ps[__i0 - 1] == patch@); assert(sound(c, u, ps[__i0 - 1])); }
    //@loop 0 end
        proof { ran_step(b, s, ps, __i0 - 1, c, u, self.m(), slots@); }
    //@loop 0 after
        proof { assert(ps.take(ps.len() as int) =~= ps); assert(ran_to(b, s, ps, self.m(), true)); }
    //@end
}

// Obligations that MUST fail (of private functions).
#[verifier::rlimit(3)]
pub fn must_fail_insert<'a>(d: &mut Document<'a>, at: &NodeRef, x: NodeId, slots: &mut HashMap<u32, NodeId>)
    requires trees(old(d).m()), slots_ok(old(d).m(), old(slots)@), old(d).m().has(x), old(d).m().par(x) is None,
        place(old(d).m(), old(slots)@, at.0.0@) is Some, !above(old(d).m(), x, (place(old(d).m(), old(slots)@, at.0.0@)->0).0),
        (place(old(d).m(), old(slots)@, at.0.0@)->0).1 < old(d).m().kids((place(old(d).m(), old(slots)@, at.0.0@)->0).0).len(),
{
    let r = d.insert_at(at, x, Some(3), slots);
    assert(r is Ok);
    assert(false);
}
#[verifier::rlimit(3)]
pub fn must_fail_copy<'a>(d: &mut Document<'a>, w: &Document<'_>, x: NodeId)
    requires trees(old(d).m()), trees(w.m()), w.m().has(x), w.m().kids(x).len() > 1
{
    let r = d.clone_subtree_from(w, x);
    assert(false);
}
} // verus!
}
