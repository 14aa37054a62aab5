// What a page says, node by node: the oracle both trees are held to.
pub mod page_content {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::forest::*;
use crate::forest_laws::*;
use crate::html_types::*;
use crate::html_props::{HtmlProps, HtmlNodeKind, HtmlTreeTypes, pairs_v};
verus! {

/// What a hasher is fed.
pub ghost enum Fed { Kind(HtmlNodeKind), Text(Seq<char>), Num(u64) }
/// ASSUMED(rapidhash): the digest is a function of what was fed.
pub uninterp spec fn digest(s: Seq<Fed>) -> u64;
#[verifier::external_body]
pub struct RapidHasher { p: () }
impl View for RapidHasher { type V = Seq<Fed>; uninterp spec fn view(&self) -> Seq<Fed>; }
impl RapidHasher {
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Seq::<Fed>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(&self) -> (r: u64) ensures r == digest(self@) { unimplemented!() }
}
pub trait Hash {
    spec fn fed(&self) -> Fed;
    fn hash(&self, h: &mut RapidHasher) ensures final(h)@ == old(h)@.push(self.fed());
}
/// ASSUMED(derive / std): kinds, texts and numbers are fed as what they are.
impl Hash for HtmlNodeKind {
    open spec fn fed(&self) -> Fed { Fed::Kind(*self) }
    #[verifier::external_body]
    fn hash(&self, h: &mut RapidHasher) { unimplemented!() }
}
impl<'a> Hash for Stem<'a> {
    open spec fn fed(&self) -> Fed { Fed::Text(self@) }
    #[verifier::external_body]
    fn hash(&self, h: &mut RapidHasher) { unimplemented!() }
}
impl Hash for u64 {
    open spec fn fed(&self) -> Fed { Fed::Num(*self) }
    #[verifier::external_body]
    fn hash(&self, h: &mut RapidHasher) { unimplemented!() }
}

/// What a node of a page is: its kind, attributes and text.
pub ghost struct NodeV { pub kind: HtmlNodeKind, pub attrs: Seq<(QualName, Seq<char>)>, pub text: Option<Seq<char>> }
pub open spec fn node_v(k: HtmlNodeKind, p: HtmlProps<'_>, t: Option<Stem<'_>>) -> NodeV {
    NodeV { kind: k, attrs: pairs_v(p.attrs@), text: match t { Some(x) => Some(x@), None => None } }
}
/// A node and what hangs below it.
pub ghost struct PageV { pub node: NodeV, pub kids: Seq<PageV> }
pub open spec fn shown<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, x: NodeId) -> PageV
    decreases below_top(m, x), m.kids(x).len() + 1
{
    PageV { node: f(m.data(x)), kids: showns(m, f, x, m.kids(x).len()) }
}
pub open spec fn showns<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, x: NodeId, n: nat) -> Seq<PageV>
    decreases below_top(m, x), n
{
    if n == 0 { Seq::empty() } else {
        let k = m.kids(x)[n - 1];
        let s = showns(m, f, x, (n - 1) as nat);
        if m.depth(x) < m.depth(k) <= m.top { s.push(shown(m, f, k)) } else { s }
    }
}
/// What a node's hash covers: its kind, its text, and the hashes of its children in order.
pub open spec fn own(v: NodeV) -> Seq<Fed> {
    match v.text { Some(t) => seq![Fed::Kind(v.kind), Fed::Text(t)], None => seq![Fed::Kind(v.kind)] }
}
pub open spec fn dig(p: PageV) -> u64
    decreases p, p.kids.len() + 1
{
    digest(own(p.node) + digs(p, p.kids.len()))
}
pub open spec fn digs(p: PageV, n: nat) -> Seq<Fed>
    decreases p, n
{
    if n == 0 || n > p.kids.len() { Seq::empty() } else { digs(p, (n - 1) as nat).push(Fed::Num(dig(p.kids[n - 1]))) }
}
pub proof fn showns_are<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, x: NodeId, n: nat)
    requires trees(m), m.has(x), n <= m.kids(x).len()
    ensures showns(m, f, x, n).len() == n, forall|j: int| 0 <= j < n ==> #[trigger] showns(m, f, x, n)[j] == shown(m, f, m.kids(x)[j])
    decreases n
{
    if n > 0 { showns_are(m, f, x, (n - 1) as nat); kid_depth(m, x, n - 1); }
}
/// The same subtree in two forests says the same.
pub proof fn same_shown<D, E>(m: ForestM<D>, f: spec_fn(D) -> NodeV, k: ForestM<E>, g: spec_fn(E) -> NodeV, x: NodeId)
    requires trees(m), trees(k), m.has(x), k.has(x),
        forall|y: NodeId| #![trigger m.kids(y)] m.has(y) && over(m, x, y) ==> k.has(y) && k.kids(y) == m.kids(y) && g(k.data(y)) == f(m.data(y))
    ensures shown(k, g, x) == shown(m, f, x)
    decreases below_top(m, x)
{
    let n = m.kids(x).len();
    assert(over(m, x, x));
    assert(k.kids(x) == m.kids(x));
    showns_are(m, f, x, n);
    showns_are(k, g, x, n);
    assert forall|j: int| 0 <= j < n implies shown(k, g, #[trigger] m.kids(x)[j]) == shown(m, f, m.kids(x)[j]) by {
        kid_depth(m, x, j);
        let c = m.kids(x)[j];
        assert(k.has(k.kids(x)[j]));
        assert forall|y: NodeId| #![trigger m.kids(y)] m.has(y) && over(m, c, y) implies k.has(y) && k.kids(y) == m.kids(y) && g(k.data(y)) == f(m.data(y)) by {
            over_up(m, c, y);
        }
        same_shown(m, f, k, g, c);
    }
    assert(showns(k, g, x, n) =~= showns(m, f, x, n));
}
pub proof fn dig_is<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, x: NodeId)
    requires trees(m), m.has(x)
    ensures dig(shown(m, f, x)) == digest(own(f(m.data(x))) + digs(shown(m, f, x), m.kids(x).len())),
        own(f(m.data(x))) + digs(shown(m, f, x), 0) == own(f(m.data(x))),
{
    showns_are(m, f, x, m.kids(x).len());
    assert(own(f(m.data(x))) + digs(shown(m, f, x), 0) =~= own(f(m.data(x))));
}
pub proof fn dig_one<D>(m: ForestM<D>, f: spec_fn(D) -> NodeV, x: NodeId, i: int)
    requires trees(m), m.has(x), 0 <= i < m.kids(x).len()
    ensures own(f(m.data(x))) + digs(shown(m, f, x), (i + 1) as nat) == (own(f(m.data(x))) + digs(shown(m, f, x), i as nat)).push(Fed::Num(dig(shown(m, f, m.kids(x)[i]))))
{
    showns_are(m, f, x, m.kids(x).len());
    let o = own(f(m.data(x)));
    let p = shown(m, f, x);
    assert(p.kids[i] == shown(m, f, m.kids(x)[i]));
    assert(o + digs(p, (i + 1) as nat) =~= (o + digs(p, i as nat)).push(Fed::Num(dig(p.kids[i]))));
}

} // verus!
}
