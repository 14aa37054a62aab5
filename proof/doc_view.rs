// A page as cinereus sees it without a tree of its own: the body of a document, in place.
pub mod doc_view {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::forest::*;
use crate::forest_laws::*;
use crate::forest_walk::*;
use crate::forest_tree::*;
use crate::page_content::*;
use crate::html_types::*;
use crate::html_dom::NodeData;
use crate::html_dom::{Document, NodeKind, Namespace, is_named, first_named};
use crate::html_props::{HtmlProps, HtmlNodeKind, HtmlTreeTypes, DiffError, pairs_v};
verus! {

//@item DiffNodeData
//@item DiffableDocument
//@item PostOrderIterator

pub type Forest<'a> = ForestM<NodeData<'a>>;
pub open spec fn page_node(d: NodeData<'_>) -> NodeV {
    match d.kind {
        NodeKind::Element(e) => NodeV { kind: HtmlNodeKind::Element(e.tag, d.ns), attrs: pairs_v(e.attrs@), text: None },
        NodeKind::Text(t) => NodeV { kind: HtmlNodeKind::Text, attrs: Seq::empty(), text: Some(t@) },
        NodeKind::Comment(t) => NodeV { kind: HtmlNodeKind::Comment, attrs: Seq::empty(), text: Some(t@) },
        NodeKind::Document => NodeV { kind: HtmlNodeKind::Text, attrs: Seq::empty(), text: None },
    }
}
/// There is no document node at or below `x`.
pub open spec fn plain(m: Forest<'_>, x: NodeId) -> bool {
    forall|y: NodeId| #![trigger m.data(y)] m.has(y) && over(m, x, y) ==> !(m.data(y).kind is Document)
}
pub open spec fn place_rule<D>(m: ForestM<D>, x: NodeId) -> spec_fn(Option<u32>) -> bool {
    |o: Option<u32>| match o { Some(i) => i == place(m, x), None => true }
}
pub open spec fn says(m: Forest<'_>, x: NodeId, d: DiffNodeData<'_>) -> bool {
    &&& node_v(d.kind, d.props, d.text) == page_node(m.data(x))
    &&& d.position.rule() == place_rule(m, x)
}
pub open spec fn page_f<'a>() -> spec_fn(NodeData<'a>) -> NodeV { |d: NodeData<'a>| page_node(d) }
/// What the page says at and below `x`.
pub open spec fn page(m: Forest<'_>, x: NodeId) -> PageV { shown(m, page_f(), x) }
pub open spec fn sum(m: Forest<'_>, x: NodeId) -> u64 { dig(page(m, x)) }
pub type Nodes<'a> = Map<NodeId, DiffNodeData<'a>>;
/// The first n nodes of the traversal, with what the page says about them, are in the map; no other node is.
#[verifier::opaque]
pub open spec fn listed<'a>(m: Forest<'a>, s: Seq<NodeId>, n: int, nodes: Nodes<'a>) -> bool {
    &&& forall|i: int| 0 <= i < n ==> nodes.contains_key(#[trigger] s[i])
    &&& forall|x: NodeId| #[trigger] nodes.contains_key(x) ==> s.take(n).contains(x) && says(m, x, nodes[x])
}
/// The first n nodes of the traversal have their height and hash.
#[verifier::opaque]
pub open spec fn summed<'a>(m: Forest<'a>, s: Seq<NodeId>, n: int, nodes: Nodes<'a>) -> bool {
    forall|i: int| #![trigger s[i]] 0 <= i < n ==> nodes[s[i]].height == tall(m, s[i]) && nodes[s[i]].hash.0 == sum(m, s[i])
}
/// The map covers exactly the nodes at and below `b`.
#[verifier::opaque]
pub open spec fn covers<'a>(m: Forest<'a>, b: NodeId, nodes: Nodes<'a>) -> bool {
    forall|x: NodeId| #![trigger nodes.contains_key(x)] (nodes.contains_key(x) <==> m.has(x) && over(m, b, x)) && (nodes.contains_key(x) ==> says(m, x, nodes[x]))
}
pub open spec fn done<'a>(m: Forest<'a>, b: NodeId, nodes: Nodes<'a>) -> bool {
    &&& covers(m, b, nodes)
    &&& forall|x: NodeId| #![trigger nodes[x]] nodes.contains_key(x) ==> nodes[x].height == tall(m, x) && nodes[x].hash.0 == sum(m, x)
}
proof fn list_more<'a>(m: Forest<'a>, s: Seq<NodeId>, n: int, a: Nodes<'a>, x: NodeId, d: DiffNodeData<'a>)
    requires listed(m, s, n, a), 0 <= n < s.len(), x == s[n], says(m, x, d)
    ensures listed(m, s, n + 1, a.insert(x, d))
{
    reveal(listed);
    let b = a.insert(x, d);
    assert(s.take(n + 1)[n] == x);
    assert forall|y: NodeId| #[trigger] b.contains_key(y) implies s.take(n + 1).contains(y) && says(m, y, b[y]) by {
        if y != x {
            assert(a.contains_key(y));
            let i = choose|i: int| 0 <= i < n && s.take(n)[i] == y;
            assert(s.take(n + 1)[i] == y);
        }
    }
}
proof fn list_done<'a>(m: Forest<'a>, b: NodeId, s: Seq<NodeId>, nodes: Nodes<'a>)
    requires trees(m), m.has(b), s == pre(m, b), listed(m, s, s.len() as int, nodes)
    ensures covers(m, b, nodes)
{
    reveal(listed);
    reveal(covers);
    pre_holds(m, b);
    assert(s.take(s.len() as int) =~= s);
    assert forall|x: NodeId| #![trigger nodes.contains_key(x)] (nodes.contains_key(x) <==> m.has(x) && over(m, b, x)) by {
        if m.has(x) && over(m, b, x) { assert(s.contains(x)); let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(nodes.contains_key(s[i])); }
    }
}
/// The children of the n-th node of the post-order come before it.
proof fn kids_done<'a>(m: Forest<'a>, b: NodeId, s: Seq<NodeId>, n: int, nodes: Nodes<'a>)
    requires trees(m), m.has(b), s == post(m, b), 0 <= n < s.len(), summed(m, s, n, nodes), covers(m, b, nodes)
    ensures m.has(s[n]), over(m, b, s[n]), nodes.contains_key(s[n]), says(m, s[n], nodes[s[n]]),
        forall|j: int| #![trigger m.kids(s[n])[j]] 0 <= j < m.kids(s[n]).len() ==> nodes.contains_key(m.kids(s[n])[j])
            && nodes[m.kids(s[n])[j]].height == tall(m, m.kids(s[n])[j]) && nodes[m.kids(s[n])[j]].hash.0 == sum(m, m.kids(s[n])[j])
            && m.has(m.kids(s[n])[j]) && m.depth(m.kids(s[n])[j]) == m.depth(s[n]) + 1 && m.depth(m.kids(s[n])[j]) <= m.top,
{
    reveal(summed);
    reveal(covers);
    post_holds(m, b);
    post_order(m, b);
    let x = s[n];
    assert(s.contains(x));
    assert forall|j: int| #![trigger m.kids(x)[j]] 0 <= j < m.kids(x).len() implies nodes.contains_key(m.kids(x)[j])
            && nodes[m.kids(x)[j]].height == tall(m, m.kids(x)[j]) && nodes[m.kids(x)[j]].hash.0 == sum(m, m.kids(x)[j])
            && m.has(m.kids(x)[j]) && m.depth(m.kids(x)[j]) == m.depth(x) + 1 && m.depth(m.kids(x)[j]) <= m.top by {
        kid_depth(m, x, j);
        let k = m.kids(x)[j];
        over_step(m, b, k);
        assert(s.contains(k));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == k;
        assert(m.par(s[i]) == Some(s[n]));
        assert(i < n);
    }
}
pub proof fn over_step<D>(m: ForestM<D>, b: NodeId, k: NodeId)
    requires trees(m), m.has(k), m.par(k) is Some
    ensures over(m, b, m.par(k)->0) ==> over(m, b, k)
{
}
proof fn sum_more<'a>(m: Forest<'a>, b: NodeId, s: Seq<NodeId>, n: int, a: Nodes<'a>, x: NodeId, d: DiffNodeData<'a>)
    requires trees(m), m.has(b), s == post(m, b), 0 <= n < s.len(), x == s[n], summed(m, s, n, a), covers(m, b, a), a.contains_key(x), says(m, x, d), d.height == tall(m, x), d.hash.0 == sum(m, x)
    ensures summed(m, s, n + 1, a.insert(x, d)), covers(m, b, a.insert(x, d))
{
    reveal(summed);
    reveal(covers);
    post_holds(m, b);
    let c = a.insert(x, d);
    assert forall|i: int| #![trigger s[i]] 0 <= i < n + 1 implies c[s[i]].height == tall(m, s[i]) && c[s[i]].hash.0 == sum(m, s[i]) by {
        if i < n { assert(s[i] != s[n]); }
    }
}
proof fn sum_done<'a>(m: Forest<'a>, b: NodeId, s: Seq<NodeId>, nodes: Nodes<'a>)
    requires trees(m), m.has(b), s == post(m, b), summed(m, s, s.len() as int, nodes), covers(m, b, nodes)
    ensures done(m, b, nodes)
{
    reveal(summed);
    reveal(covers);
    post_holds(m, b);
    assert forall|x: NodeId| #![trigger nodes[x]] nodes.contains_key(x) implies nodes[x].height == tall(m, x) && nodes[x].hash.0 == sum(m, x) by {
        assert(s.contains(x));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(s[i] == x);
    }
}
proof fn tall_is<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures tall(m, x) <= m.top, m.kids(x).len() == 0 ==> tall(m, x) == 0,
        forall|j: int| 0 <= j < m.kids(x).len() ==> tall(m, #[trigger] m.kids(x)[j]) < tall(m, x),
        m.kids(x).len() > 0 ==> exists|j: int| 0 <= j < m.kids(x).len() && 1 + tall(m, #[trigger] m.kids(x)[j]) == tall(m, x),
{
    talls_fit(m, x, m.kids(x).len());
}
/// The body of a page: the part that is compared.
pub open spec fn page_ok(doc: &Document<'_>) -> bool {
    &&& trees(doc.m())
    &&& doc.m().has(doc.root)
    &&& forall|i: int| 0 <= i < doc.m().kids(doc.root).len() ==> plain(doc.m(), #[trigger] doc.m().kids(doc.root)[i])
}
impl<'b, 'a> DiffableDocument<'b, 'a> {
    pub open spec fn m(&self) -> Forest<'a> { self.doc.m() }
    pub open spec fn ok(&self) -> bool {
        &&& trees(self.m())
        &&& self.m().has(self.body_id)
        &&& done(self.m(), self.body_id, self.nodes@)
    }
    //@fn DiffableDocument::new
    //@attr #[verifier::spinoff_prover] #[verifier::rlimit(40)]
    //@params doc
    //@spec
        requires page_ok(doc)
        ensures
            r is Ok ==> r->Ok_0.ok() && r->Ok_0.doc == doc && first_named(doc.m(), doc.root, r->Ok_0.body_id, "body"@), // @H09
            r is Err ==> forall|i: int| 0 <= i < doc.m().kids(doc.root).len() ==> !is_named(doc.m(), #[trigger] doc.m().kids(doc.root)[i], "body"@), // @H09
    //@start
        hide(tall); hide(talls); hide(shown); hide(showns); hide(dig); hide(digs); hide(pre); hide(pres); hide(post); hide(posts);
        let ghost m = doc.m();
        broadcast use not_deep;
        proof { node_eq(); }
    //@loop 0 before
        let ghost order = pre(m, body_id);
        proof { reveal(listed); assert(listed(m, order, 0, nodes@)); pre_holds(m, body_id); }
    //@loop 0 head
        invariant
            eq_ok::<NodeId>(), m == doc.m(), trees(m), m.has(body_id), plain(m, body_id), order == pre(m, body_id), order == __s0@,
            listed(m, order, __i0 as int, nodes@), // @H09
    //@loop 0 start
        let ghost __rule = place_rule(m, node_id);
        let ghost was = nodes@;
        proof { assert(order.contains(order[__i0 - 1])) by { } pre_holds(m, body_id); assert(m.has(node_id) && over(m, body_id, node_id)); assert(!(m.data(node_id).kind is Document)); }
    //@loop 0 end
        proof { assert(pairs_v(nodes@[node_id].props.attrs@) =~= page_node(m.data(node_id)).attrs); list_more(m, order, __i0 - 1, was, node_id, nodes@[node_id]); assert(nodes@ == was.insert(node_id, nodes@[node_id])); }
    //@loop 0 after
        proof { list_done(m, body_id, order, nodes@); reveal(summed); assert(summed(m, post(m, body_id), 0, nodes@)); }
    //@loop 1 head
        invariant
            eq_ok::<NodeId>(), m == doc.m(), trees(m), m.has(body_id), m.top < usize::MAX / 2, __s1@ == post(m, body_id),
            covers(m, body_id, nodes@), // @H09
            summed(m, __s1@, __i1 as int, nodes@), // @H09
    //@loop 1 start
        let ghost was = nodes@;
        proof { kids_done(m, body_id, __s1@, __i1 - 1, nodes@); tall_is(m, node_id); dig_is(m, page_f(), node_id); }
    //@loop 1 end
        proof { sum_more(m, body_id, __s1@, __i1 - 1, was, node_id, nodes@[node_id]); assert(nodes@ == was.insert(node_id, nodes@[node_id])); }
    //@loop 1 after
        proof { sum_done(m, body_id, post(m, body_id), nodes@); }
    //@loop 2 head
        invariant
            eq_ok::<NodeId>(), m == doc.m(), trees(m), m.has(node_id), children@ == m.kids(node_id), __s2@.len() == children@.len(), forall|j: int| 0 <= j < __s2@.len() ==> *(#[trigger] __s2@[j]) == children@[j],
            nodes@ == was,
            forall|j: int| #![trigger m.kids(node_id)[j]] 0 <= j < m.kids(node_id).len() ==> was.contains_key(m.kids(node_id)[j])
                && was[m.kids(node_id)[j]].hash.0 == sum(m, m.kids(node_id)[j]) && m.depth(m.kids(node_id)[j]) == m.depth(node_id) + 1 && m.depth(m.kids(node_id)[j]) <= m.top,
            hasher@ == own(page_node(m.data(node_id))) + digs(page(m, node_id), __i2 as nat), // @H09
    //@loop 2 before
        proof { assert(hasher@ =~= own(page_node(m.data(node_id)))); }
    //@loop 2 end
        proof { assert(m.kids(node_id)[__i2 - 1] == *child_id); dig_one(m, page_f(), node_id, __i2 - 1); }
    //@end
}

/// `x` is the mark of an opaque node.
pub open spec fn marked(p: &HtmlProps<'_>) -> bool {
    exists|i: int| 0 <= i < p.attrs@.len() && (#[trigger] p.attrs@[i]).0.local.s() == "data-hotmeal-opaque"@
}
pub open spec fn kept<'b, 'a>(t: &DiffableDocument<'b, 'a>, id: NodeId) -> DiffNodeData<'a> { t.nodes@[id] }
impl<'b, 'a> DiffTree for DiffableDocument<'b, 'a> {
    type Types = HtmlTreeTypes<'a>;
    open spec fn inv(&self) -> bool { self.ok() }
    open spec fn s_has(&self, id: NodeId) -> bool { self.m().has(id) && over(self.m(), self.body_id, id) }
    open spec fn live(&self) -> Set<NodeId> { pre(self.m(), self.body_id).to_set() }
    open spec fn s_root(&self) -> NodeId { self.body_id }
    open spec fn s_hash(&self, id: NodeId) -> NodeHash { NodeHash(sum(self.m(), id)) }
    open spec fn s_kind(&self, id: NodeId) -> &HtmlNodeKind { &self.nodes@[id].kind }
    open spec fn s_properties(&self, id: NodeId) -> &HtmlProps<'a> { &self.nodes@[id].props }
    open spec fn s_text(&self, id: NodeId) -> Option<&Stem<'a>> { match &self.nodes@[id].text { Some(x) => Some(x), None => None } }
    open spec fn s_parent(&self, id: NodeId) -> Option<NodeId> { if id == self.body_id { None } else { self.m().par(id) } }
    open spec fn s_children(&self, id: NodeId) -> Seq<NodeId> { self.m().kids(id) }
    open spec fn s_child_count(&self, id: NodeId) -> usize { self.m().kids(id).len() as usize }
    open spec fn s_position(&self, id: NodeId) -> usize { place(self.m(), id) as usize }
    open spec fn s_height(&self, id: NodeId) -> usize { tall(self.m(), id) as usize }
    open spec fn s_iter(&self) -> Seq<NodeId> { pre(self.m(), self.body_id) }
    open spec fn s_post(&self) -> Seq<NodeId> { post(self.m(), self.body_id) }
    open spec fn s_descendants(&self, id: NodeId) -> Seq<NodeId> { pre(self.m(), id) }
    /// What is around the body.
    open spec fn s_near(&self, id: NodeId) -> bool { self.m().has(id) && !over(self.m(), self.body_id, id) }
    open spec fn s_rooted(&self) -> bool { false }
    open spec fn s_is_opaque(&self, id: NodeId) -> bool { marked(self.s_properties(id)) }
    //@fn <DiffTree for DiffableDocument>::root loops=0
    //@end
    //@fn <DiffTree for DiffableDocument>::node_count loops=0
    //@end
    //@fn <DiffTree for DiffableDocument>::hash loops=0
    //@start
        proof { node_eq(); reveal(covers); }
    //@end
    //@fn <DiffTree for DiffableDocument>::kind loops=0
    //@start
        proof { node_eq(); reveal(covers); }
    //@end
    //@fn <DiffTree for DiffableDocument>::properties loops=0
    //@start
        proof { node_eq(); reveal(covers); }
    //@end
    //@fn <DiffTree for DiffableDocument>::text loops=0
    //@start
        proof { node_eq(); reveal(covers); }
    //@end
    //@fn <DiffTree for DiffableDocument>::parent loops=0
    //@spec
        ensures r == self.m().par(id) // @H09
    //@start
        proof { around(self.m(), self.body_id, id); }
    //@end
    //@fn <DiffTree for DiffableDocument>::children loops=0
    //@end
    //@fn <DiffTree for DiffableDocument>::child_count loops=0
    //@start
        broadcast use few_kids;
    //@end
    //@fn <DiffTree for DiffableDocument>::position loops=0
    //@start
        broadcast use few_kids;
        proof { node_eq(); reveal(covers); place_of(self.m(), id); }
    //@end
    //@fn <DiffTree for DiffableDocument>::height loops=0
    //@start
        broadcast use not_deep;
        proof { node_eq(); reveal(covers); tall_fits(self.m(), id); }
    //@end
    //@fn <DiffTree for DiffableDocument>::iter loops=0
    //@end
    //@fn <DiffTree for DiffableDocument>::post_order loops=0
    //@end
    //@fn <DiffTree for DiffableDocument>::descendants loops=0
    //@end
    //@fn <DiffTree for DiffableDocument>::is_opaque loops=0
    //@start
        proof { node_eq(); reveal(covers); }
    //@end
}
pub proof fn around(m: Forest<'_>, b: NodeId, x: NodeId)
    requires trees(m), m.has(b), m.has(x)
    ensures m.par(x) is Some ==> m.has(m.par(x)->0), !over(m, b, x) && m.par(x) is Some ==> !over(m, b, m.par(x)->0),
        m.par(b) is Some ==> m.has(m.par(b)->0) && !over(m, b, m.par(b)->0),
{
    if m.par(b) is Some && over(m, b, m.par(b)->0) { over_ix(m, b, m.par(b)->0); }
}
/// The page seen this way is a tree the differencer accepts.
pub proof fn page_tree<'b, 'a>(t: &DiffableDocument<'b, 'a>)
    requires t.ok()
    ensures tree_ok(t)
{
    assert(seen_as(t, t.m(), t.body_id));
    html_types_ok();
    lawful(t, &t.doc.arena, t.body_id);
}
pub proof fn html_types_ok()
    ensures types_ok::<HtmlTreeTypes<'_>>()
{
    reveal(vstd::laws_eq::obeys_eq_spec_properties);
    assert(eq_ok::<HtmlNodeKind>());
    assert(clone_ok::<HtmlNodeKind>());
    assert(vstd::laws_eq::obeys_eq::<Stem<'_>>());
    assert(forall|x: Stem<'_>, y: Stem<'_>| #[trigger] call_ensures(<Stem<'_> as Clone>::clone, (&x,), y) ==> x@ == y@);
}
impl<'a, 'b> PostOrderIterator<'a, 'b> {
    pub fn collect<C: FromSq<NodeId>>(self) -> (r: C)
        requires self.ok()
        ensures C::from_ok(self.rest(), r)
    { self.into_sq().collect() }
    //@fn PostOrderIterator::new loops=0
    //@params root arena
    //@spec
        requires trees(arena@), arena@.has(root)
        ensures r.ok(), r.rest() == post(arena@, root) // @H09
    //@start
        proof {
            pushed(arena@, Seq::empty(), (root, false));
            assert(post(arena@, root) + todo(arena@, Seq::empty()) == post(arena@, root));
            assert forall|s: Seq<(NodeId, bool)>| s.len() == 1 && s[0] == (root, false) implies #[trigger] todo(arena@, s) == post(arena@, root) by {
                assert(s == Seq::<(NodeId, bool)>::empty().push((root, false)));
            }
        }
    //@end
}
impl<'a, 'b> Steps for PostOrderIterator<'a, 'b> {
    type Item = NodeId;
    open spec fn ok(&self) -> bool { stack_ok(self.arena@, self.stack@) }
    open spec fn rest(&self) -> Seq<NodeId> { todo(self.arena@, self.stack@) }
//@fn <Iterator for PostOrderIterator>::next loops=2
//@start
    let ghost m = self.arena@;
//@loop 0 head
    invariant m == self.arena@, stack_ok(m, self.stack@), todo(m, self.stack@) == todo(m, old(self).stack@), m == old(self).arena@,
    ensures self.stack@.len() == 0, m == self.arena@,
    decreases work(m, self.stack@)
//@loop 0 top
    let ghost s0 = self.stack@;
    proof {
        if s0.len() > 0 {
            assert(s0.drop_last().push(s0.last()) == s0);
            assert(m.has(s0.last().0));
            assert(stack_ok(m, s0.drop_last()));
            pushed(m, s0.drop_last(), s0.last());
            if !s0.last().1 { opened(m, s0.drop_last(), s0.last().0); }
            else { assert((seq![s0.last().0] + todo(m, s0.drop_last())).skip(1) == todo(m, s0.drop_last())); }
        }
    }
//@loop 1 head
    invariant
        m == self.arena@, s0.len() > 0, __s1@.len() == m.kids(s0.last().0).len(),
        forall|i: int| 0 <= i < __s1@.len() ==> #[trigger] __s1@[i] == m.kids(s0.last().0)[__s1@.len() - 1 - i],
        self.stack@ == piled(m, s0.last().0, s0.drop_last().push((s0.last().0, true)), __i1 as int), // @H09
//@end
}
impl<'a, 'b> IntoSq<NodeId> for PostOrderIterator<'a, 'b> {
    open spec fn sq_ok(self) -> bool { self.ok() }
    open spec fn sq_of(self) -> Seq<NodeId> { self.rest() }
    fn into_sq(self) -> (r: Sq<NodeId>) {
        let mut it = self;
        let mut v: Vec<NodeId> = Vec::new();
        proof { assert(v@ + it.rest() == self.rest()); }
        loop
            invariant it.ok(), v@ + it.rest() == self.rest()
            ensures it.rest().len() == 0, v@ + it.rest() == self.rest()
            decreases it.rest().len()
        {
            let ghost r0 = it.rest();
            let ghost v0 = v@;
            match it.next() {
                Some(x) => {
                    v.push(x);
                    proof { assert(v0 + r0 == v@ + it.rest()); }
                }
                None => { break; }
            }
        }
        proof { assert(v@ == self.rest()); }
        Sq { v }
    }
}

// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
#[verifier::rlimit(3)]
fn must_fail_view<'b, 'a>(doc: &'b Document<'a>)
    requires page_ok(doc)
{
    let r = DiffableDocument::new(doc);
    if r.is_ok() { assert(false); }
}
#[verifier::rlimit(3)]
fn must_fail_view_none<'b, 'a>(doc: &'b Document<'a>)
    requires page_ok(doc)
{
    let r = DiffableDocument::new(doc);
    if !r.is_ok() { assert(false); }
}
#[verifier::rlimit(3)]
proof fn must_fail_view_tree<'b, 'a>(t: &DiffableDocument<'b, 'a>)
    requires t.ok(), t.m().kids(t.body_id).len() > 2, t.m().kids(t.m().kids(t.body_id)[1]).len() > 1, t.m().par(t.body_id) is Some
{
    page_tree(t);
    assert(false);
}

} // verus!
}
