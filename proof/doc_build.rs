// The old page as the library's own tree: building it, and its hashes.
pub mod doc_build {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::forest::*;
use crate::forest_mut::{up, above, without, created, same_nodes, detached, inserted, retold, no_kid, new_above};
use crate::forest_laws::*;
use crate::forest_walk::*;
use crate::forest_tree::*;
use crate::page_content::*;
use crate::html_types::*;
use crate::html_dom::{Document, NodeKind, Namespace, is_named, first_named};
use crate::html_props::*;
use crate::shadow_trees::*;
use crate::doc_view::{Forest, page_node, page_f, page, plain, page_ok};
verus! {

pub type TreeM<'a> = ForestM<NodeData<HtmlTreeTypes<'a>>>;
pub open spec fn tree_node(d: NodeData<HtmlTreeTypes<'_>>) -> NodeV { node_v(d.kind, d.properties, d.text) }
pub open spec fn tree_f<'a>() -> spec_fn(NodeData<HtmlTreeTypes<'a>>) -> NodeV { |d: NodeData<HtmlTreeTypes<'a>>| tree_node(d) }
/// What the tree says at and below `x`.
pub open spec fn tree_page(m: TreeM<'_>, x: NodeId) -> PageV { shown(m, tree_f(), x) }
/// Only elements have something below them.
pub open spec fn leafy(m: Forest<'_>, x: NodeId) -> bool {
    forall|y: NodeId| #![trigger m.data(y)] m.has(y) && over(m, x, y) && !(m.data(y).kind is Element) ==> m.kids(y).len() == 0
}
/// The part of `m` below the children of `p` is a page's content.
pub open spec fn content_ok(m: Forest<'_>, p: NodeId) -> bool {
    forall|i: int| 0 <= i < m.kids(p).len() ==> plain(m, #[trigger] m.kids(p)[i]) && leafy(m, m.kids(p)[i])
}
/// Every node that was there has kept its data and its children, but `p`; `p` has kept those it had.
pub open spec fn grew<D>(a: ForestM<D>, b: ForestM<D>, p: NodeId) -> bool {
    forall|y: NodeId| #![trigger b.has(y)] #![trigger b.data(y)] #![trigger b.kids(y)] #![trigger b.par(y)] a.has(y) ==> b.has(y) && b.data(y) == a.data(y) && b.par(y) == a.par(y)
        && (y != p ==> b.kids(y) == a.kids(y))
}
pub open spec fn one_more<D>(a: ForestM<D>, b: ForestM<D>, p: NodeId, k: NodeId, d: D) -> bool {
    &&& !a.has(k)
    &&& b.has(k)
    &&& b.data(k) == d
    &&& b.kids(k).len() == 0
    &&& b.par(k) == Some(p)
    &&& b.kids(p) == a.kids(p).push(k)
    &&& grew(a, b, p)
    &&& forall|y: NodeId| #[trigger] b.has(y) ==> a.has(y) || y == k
}
proof fn over_same<D>(a: ForestM<D>, b: ForestM<D>, x: NodeId, y: NodeId)
    requires trees(a), trees(b), a.has(y), forall|z: NodeId| #![trigger b.par(z)] #![trigger a.par(z)] a.has(z) ==> b.has(z) && b.par(z) == a.par(z)
    ensures over(b, x, y) == over(a, x, y)
    decreases a.depth(y)
{
    assert(b.par(y) == a.par(y));
    if x != y && a.par(y) is Some { over_same(a, b, x, a.par(y)->0); }
}
proof fn whole_more<D>(a: ForestM<D>, b: ForestM<D>, root: NodeId, p: NodeId, k: NodeId, d: D)
    requires whole(a, root), trees(b), a.has(p), one_more(a, b, p, k, d)
    ensures whole(b, root)
{
    assert(b.has(root));
    assert forall|x: NodeId| #[trigger] b.has(x) implies over(b, root, x) by {
        assert forall|z: NodeId| #![trigger b.par(z)] #![trigger a.par(z)] a.has(z) implies b.has(z) && b.par(z) == a.par(z) by { assert(b.has(z)); }
        if a.has(x) { over_same(a, b, root, x); } else { over_same(a, b, root, p); assert(b.par(k) == Some(p)); }
    }
}
/// What hangs below a node that is not (above) the one that grew says what it said.
proof fn kept_shown<'a>(a: TreeM<'a>, b: TreeM<'a>, p: NodeId, k: NodeId)
    requires trees(a), trees(b), a.has(k), a.par(k) == Some(p), grew(a, b, p)
    ensures tree_page(b, k) == tree_page(a, k)
{
    assert forall|y: NodeId| #![trigger a.kids(y)] a.has(y) && over(a, k, y) implies b.has(y) && b.kids(y) == a.kids(y) && tree_f()(b.data(y)) == tree_f()(a.data(y)) by {
        assert(b.has(y));
        over_ix(a, k, y);
    }
    assert(b.has(k));
    same_shown(a, tree_f(), b, tree_f(), k);
}
impl<T: TreeTypes> Tree<T> {
    //@fn Tree::new loops=0
    //@spec
        ensures whole(r.arena@, r.root), r.arena@.data(r.root) == root_data, r.arena@.kids(r.root).len() == 0, // @H09
            forall|y: NodeId| #[trigger] r.arena@.has(y) ==> y == r.root, // @H09
    //@start
        let ghost rd = root_data;
    //@end
    //@fn Tree::add_child loops=0
    //@spec
        requires whole(old(self).arena@, old(self).root), old(self).arena@.has(parent)
        ensures
            final(self).root == old(self).root,
            whole(final(self).arena@, final(self).root), // @H09
            one_more(old(self).arena@, final(self).arena@, parent, r, data), // @H09
    //@start
        let ghost a = self.arena@;
    //@before append 0
        let ghost b = self.arena@;
        proof { new_above(a, b, child, data, parent); no_kid(b, parent, child); assert(b.kids(parent) == a.kids(parent)); assert(parent != child); }
    //@after append 0
        proof {
            let c = self.arena@;
            assert(c.kids(parent) =~= a.kids(parent).push(child));
            whole_more(a, c, self.root, parent, child, data);
        }
    //@end
}
/// The first n children of `p` say what the page's say.
#[verifier::opaque]
pub open spec fn copied<'a>(t: TreeM<'a>, p: NodeId, m: Forest<'a>, q: NodeId, n: int) -> bool {
    &&& t.kids(p).len() == n
    &&& forall|j: int| #![trigger t.kids(p)[j]] #![trigger m.kids(q)[j]] 0 <= j < n ==> tree_page(t, t.kids(p)[j]) == page(m, m.kids(q)[j])
}
proof fn copy_more<'a>(a: TreeM<'a>, b: TreeM<'a>, c: TreeM<'a>, p: NodeId, k: NodeId, d: NodeData<HtmlTreeTypes<'a>>, m: Forest<'a>, q: NodeId, n: int)
    requires trees(a), trees(b), trees(c), a.has(p), one_more(a, b, p, k, d), grew(b, c, k), copied(a, p, m, q, n),
        trees(m), m.has(q), 0 <= n < m.kids(q).len(),
        tree_node(d) == page_node(m.data(m.kids(q)[n])), copied(c, k, m, m.kids(q)[n], m.kids(m.kids(q)[n]).len() as int),
    ensures copied(c, p, m, q, n + 1), grew(a, c, p)
{
    reveal(copied);
    kid_depth(m, q, n);
    let x = m.kids(q)[n];
    assert(b.has(p) && b.has(k));
    assert(p != k);
    assert(c.has(p) && c.has(k));
    assert(c.kids(p) == a.kids(p).push(k));
    assert forall|y: NodeId| #![trigger c.has(y)] #![trigger c.data(y)] #![trigger c.kids(y)] #![trigger c.par(y)] a.has(y) implies c.has(y) && c.data(y) == a.data(y) && c.par(y) == a.par(y)
        && (y != p ==> c.kids(y) == a.kids(y)) by { assert(b.has(y)); assert(c.has(y)); assert(y != k); }
    assert forall|j: int| #![trigger c.kids(p)[j]] #![trigger m.kids(q)[j]] 0 <= j < n + 1 implies tree_page(c, c.kids(p)[j]) == page(m, m.kids(q)[j]) by {
        if j < n {
            kid_depth(a, p, j);
            kept_shown(a, c, p, a.kids(p)[j]);
            assert(c.kids(p)[j] == a.kids(p)[j]);
        } else {
            showns_are(c, tree_f(), k, c.kids(k).len());
            showns_are(m, page_f(), x, m.kids(x).len());
            assert(showns(c, tree_f(), k, c.kids(k).len()) =~= showns(m, page_f(), x, m.kids(x).len())) by {
                assert forall|i: int| 0 <= i < m.kids(x).len() implies showns(c, tree_f(), k, c.kids(k).len())[i] == showns(m, page_f(), x, m.kids(x).len())[i] by { assert(c.kids(k)[i] == c.kids(k)[i]); }
            }
            assert(c.data(k) == d);
            assert(tree_page(c, k) == page(m, x));
        }
    }
}
proof fn copy_leaf<'a>(b: TreeM<'a>, k: NodeId, m: Forest<'a>, x: NodeId)
    requires b.kids(k).len() == 0, m.kids(x).len() == 0
    ensures copied(b, k, m, x, 0)
{ reveal(copied); }
proof fn content_down(m: Forest<'_>, p: NodeId, i: int)
    requires trees(m), m.has(p), content_ok(m, p), 0 <= i < m.kids(p).len()
    ensures m.has(m.kids(p)[i]), content_ok(m, m.kids(p)[i]), !(m.data(m.kids(p)[i]).kind is Document), !(m.data(m.kids(p)[i]).kind is Element) ==> m.kids(m.kids(p)[i]).len() == 0,
        below_top(m, m.kids(p)[i]) < below_top(m, p),
{
    kid_depth(m, p, i);
    let x = m.kids(p)[i];
    assert(over(m, x, x));
    assert(plain(m, x) && leafy(m, x));
    assert forall|j: int| 0 <= j < m.kids(x).len() implies plain(m, #[trigger] m.kids(x)[j]) && leafy(m, m.kids(x)[j]) by {
        kid_depth(m, x, j);
        let k = m.kids(x)[j];
        assert forall|y: NodeId| #![trigger m.data(y)] m.has(y) && over(m, k, y) implies over(m, x, y) by { over_up(m, k, y); }
    }
}
//@fn add_arena_children loops=1
//@params tree parent doc arena_parent
//@spec
    requires
        whole(old(tree).arena@, old(tree).root), old(tree).arena@.has(parent), old(tree).arena@.kids(parent).len() == 0,
        trees(doc.m()), doc.m().has(arena_parent), content_ok(doc.m(), arena_parent)
    ensures
        final(tree).root == old(tree).root,
        whole(final(tree).arena@, final(tree).root), // @H09
        grew(old(tree).arena@, final(tree).arena@, parent), // @H09
        copied(final(tree).arena@, parent, doc.m(), arena_parent, doc.m().kids(arena_parent).len() as int), // @H09
    decreases below_top(doc.m(), arena_parent)
//@start
    hide(below_top); hide(shown); hide(showns); hide(dig); hide(digs);
    let ghost m = doc.m();
    let ghost root = tree.root;
    let ghost t0 = tree.arena@;
    proof { reveal(copied); assert(copied(t0, parent, m, arena_parent, 0)); }
//@loop 0 head
    invariant
        m == doc.m(), trees(m), m.has(arena_parent), content_ok(m, arena_parent), __s0@ == m.kids(arena_parent), tree.root == root, t0.has(parent),
        whole(tree.arena@, root), // @H09
        tree.arena@.has(parent),
        grew(t0, tree.arena@, parent), // @H09
        copied(tree.arena@, parent, m, arena_parent, __i0 as int), // @H09
//@loop 0 start
    let ghost t1 = tree.arena@;
    proof { content_down(m, arena_parent, __i0 - 1); }
//@after add_child 0
    let ghost t2 = tree.arena@;
    let ghost d0 = t2.data(node_id);
    let ghost k0 = node_id;
    proof { assert(t2.has(node_id)); assert(pairs_v(d0.properties.attrs@) =~= page_node(m.data(child_id)).attrs); }
//@after add_arena_children 0
    proof { copy_more(t1, t2, tree.arena@, parent, k0, d0, m, arena_parent, __i0 - 1); assert(tree.arena@.has(parent)); }
//@after add_child 1
    proof {
        let k = tree.arena@.kids(parent).last();
        assert(tree.arena@.kids(k).len() == 0);
        assert(pairs_v(tree.arena@.data(k).properties.attrs@) =~= Seq::empty());
        copy_leaf(tree.arena@, k, m, child_id);
        copy_more(t1, tree.arena@, tree.arena@, parent, k, tree.arena@.data(k), m, arena_parent, __i0 - 1);
        assert(tree.arena@.has(parent));
    }
//@after add_child 2
    proof {
        let k = tree.arena@.kids(parent).last();
        assert(tree.arena@.kids(k).len() == 0);
        assert(pairs_v(tree.arena@.data(k).properties.attrs@) =~= Seq::empty());
        copy_leaf(tree.arena@, k, m, child_id);
        copy_more(t1, tree.arena@, tree.arena@, parent, k, tree.arena@.data(k), m, arena_parent, __i0 - 1);
        assert(tree.arena@.has(parent));
    }
//@end

/// The same nodes, each saying the same; only hashes may differ.
pub open spec fn rehashed<'a>(a: TreeM<'a>, b: TreeM<'a>) -> bool {
    &&& trees(b)
    &&& forall|y: NodeId| #![trigger b.has(y)] b.has(y) == a.has(y)
    &&& forall|y: NodeId| #![trigger b.par(y)] b.par(y) == a.par(y)
    &&& forall|y: NodeId| #![trigger b.kids(y)] b.kids(y) == a.kids(y)
    &&& forall|y: NodeId| #![trigger b.data(y)] a.has(y) ==> b.data(y) == (NodeData { hash: b.data(y).hash, ..a.data(y) })
}
/// Every hash is that of what the tree says at and below the node.
pub open spec fn hashed(m: TreeM<'_>) -> bool {
    forall|x: NodeId| #![trigger m.data(x)] m.has(x) ==> m.data(x).hash.0 == dig(tree_page(m, x))
}
#[verifier::opaque]
pub open spec fn hashed_to<'a>(m0: TreeM<'a>, m: TreeM<'a>, s: Seq<NodeId>, n: int) -> bool {
    forall|i: int| #![trigger s[i]] 0 <= i < n ==> m.data(s[i]).hash.0 == dig(tree_page(m0, s[i]))
}
proof fn same_pages<'a>(a: TreeM<'a>, b: TreeM<'a>, x: NodeId)
    requires trees(a), rehashed(a, b), a.has(x)
    ensures tree_page(b, x) == tree_page(a, x)
{
    assert forall|y: NodeId| #![trigger a.kids(y)] a.has(y) && over(a, x, y) implies b.has(y) && b.kids(y) == a.kids(y) && tree_f()(b.data(y)) == tree_f()(a.data(y)) by {
        assert(b.has(y)); assert(b.kids(y) == a.kids(y)); assert(b.data(y) == b.data(y));
    }
    assert(b.has(x));
    same_shown(a, tree_f(), b, tree_f(), x);
}
proof fn hash_kids<'a>(m: TreeM<'a>, k: TreeM<'a>, root: NodeId, s: Seq<NodeId>, n: int)
    requires trees(m), m.has(root), s == post(m, root), 0 <= n < s.len(), hashed_to(m, k, s, n), rehashed(m, k)
    ensures m.has(s[n]), forall|j: int| 0 <= j < m.kids(s[n]).len() ==> m.has(#[trigger] m.kids(s[n])[j]) && k.data(m.kids(s[n])[j]).hash.0 == dig(tree_page(m, m.kids(s[n])[j])),
{
    reveal(hashed_to);
    post_holds(m, root);
    post_order(m, root);
    let x = s[n];
    assert(s.contains(x));
    assert forall|j: int| 0 <= j < m.kids(x).len() implies m.has(#[trigger] m.kids(x)[j]) && k.data(m.kids(x)[j]).hash.0 == dig(tree_page(m, m.kids(x)[j])) by {
        kid_depth(m, x, j);
        let c = m.kids(x)[j];
        crate::doc_view::over_step(m, root, c);
        assert(s.contains(c));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == c;
        assert(m.par(s[i]) == Some(s[n]));
        assert(i < n);
    }
}
proof fn hash_more<'a>(m: TreeM<'a>, k: TreeM<'a>, l: TreeM<'a>, root: NodeId, s: Seq<NodeId>, n: int, d: NodeData<HtmlTreeTypes<'a>>)
    requires trees(m), m.has(root), s == post(m, root), 0 <= n < s.len(), hashed_to(m, k, s, n), rehashed(m, k), m.has(s[n]),
        retold(k, l, s[n], d), trees(l), d == (NodeData { hash: d.hash, ..k.data(s[n]) }), d.hash.0 == dig(tree_page(m, s[n]))
    ensures hashed_to(m, l, s, n + 1), rehashed(m, l)
{
    reveal(hashed_to);
    post_holds(m, root);
    assert forall|i: int| #![trigger s[i]] 0 <= i < n + 1 implies l.data(s[i]).hash.0 == dig(tree_page(m, s[i])) by { if i < n { assert(s[i] != s[n]); } }
    assert forall|y: NodeId| #![trigger l.data(y)] m.has(y) implies l.data(y) == (NodeData { hash: l.data(y).hash, ..m.data(y) }) by { assert(k.data(y) == k.data(y)); }
    assert forall|y: NodeId| #![trigger l.has(y)] l.has(y) == m.has(y) by { assert(k.has(y) == m.has(y)); }
    assert forall|y: NodeId| #![trigger l.par(y)] l.par(y) == m.par(y) by { assert(k.par(y) == m.par(y)); }
    assert forall|y: NodeId| #![trigger l.kids(y)] l.kids(y) == m.kids(y) by { assert(k.kids(y) == m.kids(y)); }
}
proof fn hash_done<'a>(m: TreeM<'a>, k: TreeM<'a>, root: NodeId, s: Seq<NodeId>)
    requires whole(m, root), s == post(m, root), hashed_to(m, k, s, s.len() as int), rehashed(m, k)
    ensures hashed(k), whole(k, root), tree_page(k, root) == tree_page(m, root)
{
    reveal(hashed_to);
    post_holds(m, root);
    assert(k.has(root));
    assert(k.par(root) == m.par(root));
    assert forall|x: NodeId| #![trigger k.data(x)] k.has(x) implies k.data(x).hash.0 == dig(tree_page(k, x)) by {
        assert(m.has(x) && over(m, root, x));
        assert(s.contains(x));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == x;
        assert(k.data(s[i]).hash.0 == dig(tree_page(m, s[i])));
        same_pages(m, k, x);
    }
    assert forall|x: NodeId| #[trigger] k.has(x) implies over(k, root, x) by {
        assert(m.has(x));
        assert forall|z: NodeId| #![trigger k.par(z)] #![trigger m.par(z)] m.has(z) implies k.has(z) && k.par(z) == m.par(z) by { assert(k.has(z)); assert(k.par(z) == m.par(z)); }
        over_same(m, k, root, x);
    }
    same_pages(m, k, root);
}
proof fn own_is<'a>(m0: TreeM<'a>, m: TreeM<'a>, x: NodeId)
    requires rehashed(m0, m), m0.has(x)
    ensures m.has(x), tree_node(m.data(x)) == tree_node(m0.data(x)), own(tree_f()(m0.data(x))) == own(tree_node(m.data(x))), m.kids(x) == m0.kids(x)
{
    assert(m.data(x) == m.data(x));
    assert(m.has(x));
}
//@fn recompute_hashes
//@attr #[verifier::spinoff_prover]
//@spec
    requires whole(old(tree).arena@, old(tree).root)
    ensures
        final(tree).root == old(tree).root,
        whole(final(tree).arena@, final(tree).root), // @H09
        rehashed(old(tree).arena@, final(tree).arena@), // @H09
        hashed(final(tree).arena@), // @H09
        tree_page(final(tree).arena@, final(tree).root) == tree_page(old(tree).arena@, final(tree).root), // @H09
//@start
    hide(shown); hide(showns); hide(dig); hide(digs); hide(post); hide(posts);
    let ghost root = tree.root;
    let ghost m = tree.arena@;
    proof { reveal(hashed_to); assert(hashed_to(m, m, post(m, root), 0)); }
//@loop 0 head
    invariant
        whole(m, root), tree.root == root, __s0@ == post(m, root),
        rehashed(m, tree.arena@), // @H09
        hashed_to(m, tree.arena@, __s0@, __i0 as int), // @H09
//@loop 0 start
    let ghost k = tree.arena@;
    proof { hash_kids(m, k, root, __s0@, __i0 - 1); own_is(m, k, node_id); dig_is(m, tree_f(), node_id); }
//@loop 0 end
    proof { hash_more(m, k, tree.arena@, root, __s0@, __i0 - 1, tree.arena@.data(node_id)); }
//@loop 0 after
    proof { hash_done(m, tree.arena@, root, post(m, root)); }
//@loop 1 before
    proof { assert(hasher@ =~= own(tree_node(m.data(node_id)))); }
//@loop 1 head
    invariant
        trees(m), m.has(node_id), tree.arena@ == k, __s1@ == m.kids(node_id), rehashed(m, k),
        forall|j: int| 0 <= j < m.kids(node_id).len() ==> m.has(#[trigger] m.kids(node_id)[j]) && k.data(m.kids(node_id)[j]).hash.0 == dig(tree_page(m, m.kids(node_id)[j])),
        hasher@ == own(tree_f()(m.data(node_id))) + digs(tree_page(m, node_id), __i1 as nat), // @H09
//@loop 1 start
    proof { own_is(m, k, m.kids(node_id)[__i1 - 1]); }
//@loop 1 end
    proof { dig_one(m, tree_f(), node_id, __i1 - 1); }
//@end

/// An empty body.
pub open spec fn bare_body(v: PageV) -> bool {
    v.node.kind is Element && v.node.kind->Element_0.s() == "body"@ && v.node.kind->Element_1 == Namespace::Html && v.node.attrs.len() == 0 && v.node.text is None && v.kids.len() == 0
}
proof fn root_said<'a>(t: TreeM<'a>, r: NodeId, m: Forest<'a>, b: NodeId)
    requires trees(t), t.has(r), trees(m), m.has(b), copied(t, r, m, b, m.kids(b).len() as int), tree_node(t.data(r)) == page_node(m.data(b))
    ensures tree_page(t, r) == page(m, b)
{
    reveal(copied);
    showns_are(t, tree_f(), r, t.kids(r).len());
    showns_are(m, page_f(), b, m.kids(b).len());
    assert(showns(t, tree_f(), r, t.kids(r).len()) =~= showns(m, page_f(), b, m.kids(b).len())) by {
        assert forall|i: int| 0 <= i < m.kids(b).len() implies showns(t, tree_f(), r, t.kids(r).len())[i] == showns(m, page_f(), b, m.kids(b).len())[i] by { assert(t.kids(r)[i] == t.kids(r)[i]); }
    }
}
pub proof fn one_first(m: Forest<'_>, p: NodeId, x: NodeId, y: NodeId, t: Seq<char>)
    requires first_named(m, p, x, t), first_named(m, p, y, t)
    ensures x == y
{
    let i = choose|i: int| 0 <= i < m.kids(p).len() && #[trigger] m.kids(p)[i] == x && is_named(m, x, t) && forall|j: int| 0 <= j < i ==> !is_named(m, #[trigger] m.kids(p)[j], t);
    let k = choose|i: int| 0 <= i < m.kids(p).len() && #[trigger] m.kids(p)[i] == y && is_named(m, y, t) && forall|j: int| 0 <= j < i ==> !is_named(m, #[trigger] m.kids(p)[j], t);
    assert(!(i < k) && !(k < i));
}
/// Only elements of the page have something below them.
pub open spec fn leaves_ok(doc: &Document<'_>) -> bool {
    forall|i: int| 0 <= i < doc.m().kids(doc.root).len() ==> leafy(doc.m(), #[trigger] doc.m().kids(doc.root)[i])
}
proof fn body_content(doc: &Document<'_>, b: NodeId)
    requires page_ok(doc), leaves_ok(doc), first_named(doc.m(), doc.root, b, "body"@)
    ensures doc.m().has(b), content_ok(doc.m(), b)
{
    let m = doc.m();
    let p = doc.root;
    let i = choose|i: int| 0 <= i < m.kids(p).len() && #[trigger] m.kids(p)[i] == b && is_named(m, b, "body"@) && forall|j: int| 0 <= j < i ==> !is_named(m, #[trigger] m.kids(p)[j], "body"@);
    assert(content_ok(m, p));
    content_down(m, p, i);
}
//@fn build_tree_from_arena loops=0
//@params doc
//@spec
    requires page_ok(doc), leaves_ok(doc)
    ensures
        whole(r.arena@, r.root), // @H09
        hashed(r.arena@), // @H09
        forall|b: NodeId| #[trigger] first_named(doc.m(), doc.root, b, "body"@) ==> tree_page(r.arena@, r.root) == page(doc.m(), b), // @H09
        (forall|i: int| 0 <= i < doc.m().kids(doc.root).len() ==> !is_named(doc.m(), #[trigger] doc.m().kids(doc.root)[i], "body"@)) ==> bare_body(tree_page(r.arena@, r.root)), // @H09
//@start
    hide(shown); hide(showns); hide(dig); hide(digs);
    let ghost m = doc.m();
//@before add_arena_children 0
    proof { body_content(doc, body_id); }
//@before recompute_hashes 0
    proof {
        let t = tree.arena@;
        if body_id is Some {
            pair_clones();
            assert(pairs_v(t.data(tree.root).properties.attrs@) =~= page_node(m.data(body_id->0)).attrs);
            root_said(t, tree.root, m, body_id->0);
            assert forall|b: NodeId| #[trigger] first_named(m, doc.root, b, "body"@) implies b == body_id->0 by { one_first(m, doc.root, b, body_id->0, "body"@); }
        } else {
            showns_are(t, tree_f(), tree.root, 0);
            assert(pairs_v(t.data(tree.root).properties.attrs@) =~= Seq::empty());
            bare(t, tree.root);
            assert forall|b: NodeId| !(#[trigger] first_named(m, doc.root, b, "body"@)) by { }
        }
    }
//@end
/// ASSUMED(std): a copied pair holds copies.
#[verifier::external_body]
proof fn pair_clones<'a>()
    ensures forall|x: (QualName, Stem<'a>), y: (QualName, Stem<'a>)| #[trigger] cloned(x, y) ==> x.0 == y.0 && x.1@ == y.1@
{ }
proof fn bare<'a>(t: TreeM<'a>, r: NodeId)
    requires trees(t), t.has(r), t.kids(r).len() == 0
    ensures tree_page(t, r).kids.len() == 0, tree_page(t, r).node == tree_node(t.data(r))
{ }

// Obligations that MUST fail: if the verifier accepts one, a contract is contradictory.
#[verifier::rlimit(3)]
fn must_fail_build<'a>(doc: &Document<'a>, b: NodeId)
    requires page_ok(doc), leaves_ok(doc), first_named(doc.m(), doc.root, b, "body"@), doc.m().kids(b).len() > 2, doc.m().kids(doc.m().kids(b)[1]).len() > 1
{
    let t = build_tree_from_arena(doc);
    assert(false);
}
#[verifier::rlimit(3)]
fn must_fail_hashes<'a>(tree: &mut Tree<HtmlTreeTypes<'a>>)
    requires whole(old(tree).arena@, old(tree).root), old(tree).arena@.kids(old(tree).root).len() > 2
{
    recompute_hashes(tree);
    assert(false);
}

} // verus!
}
