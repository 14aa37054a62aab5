// What follows from the shape of a forest: orders and heights. (The counterpart of arena.rs for arenas whose nodes move.)
pub mod forest_laws {
use vstd::prelude::*;
use crate::prelude::*;
use crate::forest::*;
verus! {

/// How much room there is below a node.
pub open spec fn below_top<D>(m: ForestM<D>, x: NodeId) -> nat { if m.depth(x) <= m.top { (m.top - m.depth(x)) as nat } else { 0 } }
/// Pre-order: the node, then the subtrees of its children in order.
pub open spec fn pre<D>(m: ForestM<D>, x: NodeId) -> Seq<NodeId>
    decreases below_top(m, x), m.kids(x).len() + 1
{
    seq![x] + pres(m, x, m.kids(x).len())
}
pub open spec fn pres<D>(m: ForestM<D>, x: NodeId, n: nat) -> Seq<NodeId>
    decreases below_top(m, x), n
{
    if n == 0 { Seq::empty() } else {
        let k = m.kids(x)[n - 1];
        pres(m, x, (n - 1) as nat) + (if m.depth(x) < m.depth(k) <= m.top { pre(m, k) } else { Seq::empty() })
    }
}
/// Post-order: the subtrees of the children in order, then the node.
pub open spec fn post<D>(m: ForestM<D>, x: NodeId) -> Seq<NodeId>
    decreases below_top(m, x), m.kids(x).len() + 1
{
    posts(m, x, m.kids(x).len()).push(x)
}
pub open spec fn posts<D>(m: ForestM<D>, x: NodeId, n: nat) -> Seq<NodeId>
    decreases below_top(m, x), n
{
    if n == 0 { Seq::empty() } else {
        let k = m.kids(x)[n - 1];
        posts(m, x, (n - 1) as nat) + (if m.depth(x) < m.depth(k) <= m.top { post(m, k) } else { Seq::empty() })
    }
}
/// Distance to the furthest leaf.
pub open spec fn tall<D>(m: ForestM<D>, x: NodeId) -> nat
    decreases below_top(m, x), m.kids(x).len() + 1
{
    talls(m, x, m.kids(x).len())
}
pub open spec fn talls<D>(m: ForestM<D>, x: NodeId, n: nat) -> nat
    decreases below_top(m, x), n
{
    if n == 0 { 0 } else {
        let k = m.kids(x)[n - 1];
        let h = if m.depth(x) < m.depth(k) <= m.top { 1 + tall(m, k) } else { 0 };
        let g = talls(m, x, (n - 1) as nat);
        if h > g { h } else { g }
    }
}

// ---------------------------------------------------------------- facts about the model
/// `x` is `y` or above it.
pub open spec fn over<D>(m: ForestM<D>, x: NodeId, y: NodeId) -> bool { m.over(x, y) }
pub proof fn over_ix<D>(m: ForestM<D>, x: NodeId, y: NodeId)
    requires trees(m), m.has(y), over(m, x, y)
    ensures m.has(x), m.depth(x) <= m.depth(y), x != y ==> m.depth(x) < m.depth(y)
    decreases m.depth(y)
{
    if x != y { over_ix(m, x, m.par(y)->0); }
}
/// Below x: x itself or below one of its children.
pub proof fn over_child<D>(m: ForestM<D>, x: NodeId, y: NodeId) -> (j: int)
    requires trees(m), m.has(y), over(m, x, y), x != y
    ensures 0 <= j < m.kids(x).len(), over(m, m.kids(x)[j], y)
    decreases m.depth(y)
{
    let p = m.par(y)->0;
    if p == x {
        let j = choose|j: int| 0 <= j < m.kids(x).len() && #[trigger] m.kids(x)[j] == y;
        assert(m.kids(x)[j] == y);
        j
    } else {
        over_child(m, x, p)
    }
}
pub proof fn over_up<D>(m: ForestM<D>, k: NodeId, y: NodeId)
    requires trees(m), m.has(y), over(m, k, y), m.par(k) is Some
    ensures over(m, m.par(k)->0, y)
    decreases m.depth(y)
{
    over_ix(m, k, y);
    let x = m.par(k)->0;
    if k == y {
        assert(over(m, x, x));
    } else {
        over_up(m, k, m.par(y)->0);
    }
}
/// Siblings have nothing below them in common.
pub proof fn apart<D>(m: ForestM<D>, j: NodeId, k: NodeId, y: NodeId)
    requires trees(m), m.has(y), over(m, j, y), over(m, k, y), m.par(j) is Some, m.par(j) == m.par(k)
    ensures j == k
    decreases m.depth(y)
{
    over_ix(m, j, y);
    over_ix(m, k, y);
    if j != k {
        if j == y { over_ix(m, k, m.par(y)->0); }
        else if k == y { over_ix(m, j, m.par(y)->0); }
        else { apart(m, j, k, m.par(y)->0); }
    }
}
/// What the first n subtrees below x contain.
pub open spec fn part<D>(m: ForestM<D>, x: NodeId, n: nat, y: NodeId) -> bool {
    m.has(y) && exists|j: int| 0 <= j < n && over(m, #[trigger] m.kids(x)[j], y)
}
pub proof fn post_holds<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures post(m, x).no_duplicates(), forall|y: NodeId| #[trigger] post(m, x).contains(y) <==> m.has(y) && over(m, x, y)
    decreases below_top(m, x), m.kids(x).len() + 1
{
    let n = m.kids(x).len();
    posts_hold(m, x, n);
    let s = posts(m, x, n);
    let r = post(m, x);
    assert(r == s.push(x));
    assert forall|y: NodeId| #[trigger] r.contains(y) <==> m.has(y) && over(m, x, y) by {
        if r.contains(y) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
            if i < s.len() {
                assert(s[i] == y);
                assert(s.contains(y));
                let j = choose|j: int| 0 <= j < n && over(m, #[trigger] m.kids(x)[j], y);
                over_up(m, m.kids(x)[j], y);
            }
        }
        if m.has(y) && over(m, x, y) {
            if x == y { assert(r[s.len() as int] == y); } else {
                let j = over_child(m, x, y);
                assert(part(m, x, n, y));
                assert(s.contains(y));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                assert(r[i] == y);
            }
        }
    }
    assert(!s.contains(x)) by {
        if s.contains(x) {
            let j = choose|j: int| 0 <= j < n && over(m, #[trigger] m.kids(x)[j], x);
            over_ix(m, m.kids(x)[j], x);
        }
    }
    assert(r.no_duplicates()) by {
        assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
            if a < s.len() && b < s.len() { assert(s[a] != s[b]); }
            else if a < s.len() { assert(s.contains(s[a])); }
            else if b < s.len() { assert(s.contains(s[b])); }
        }
    }
}
pub proof fn posts_hold<D>(m: ForestM<D>, x: NodeId, n: nat)
    requires trees(m), m.has(x), n <= m.kids(x).len()
    ensures posts(m, x, n).no_duplicates(), forall|y: NodeId| #[trigger] posts(m, x, n).contains(y) <==> part(m, x, n, y)
    decreases below_top(m, x), n
{
    if n > 0 {
        let k = m.kids(x)[n - 1];
        assert(m.par(k) == Some(x));
        posts_hold(m, x, (n - 1) as nat);
        post_holds(m, k);
        let s = posts(m, x, (n - 1) as nat);
        let u = post(m, k);
        two_parts(m, x, n, s, u);
        assert(posts(m, x, n) == s + u);
    }
}
/// One more subtree joins the first n-1.
proof fn two_parts<D>(m: ForestM<D>, x: NodeId, n: nat, s: Seq<NodeId>, u: Seq<NodeId>)
    requires trees(m), m.has(x), 0 < n <= m.kids(x).len(), s.no_duplicates(), u.no_duplicates(),
        forall|y: NodeId| #[trigger] s.contains(y) <==> part(m, x, (n - 1) as nat, y),
        forall|y: NodeId| #[trigger] u.contains(y) <==> m.has(y) && over(m, m.kids(x)[n - 1], y),
    ensures (s + u).no_duplicates(), forall|y: NodeId| #[trigger] (s + u).contains(y) <==> part(m, x, n, y)
{
    let r = s + u;
    let k = m.kids(x)[n - 1];
    assert forall|y: NodeId| #[trigger] r.contains(y) <==> part(m, x, n, y) by {
        if r.contains(y) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
            if i < s.len() {
                assert(s[i] == y);
                assert(s.contains(y));
                assert(part(m, x, (n - 1) as nat, y));
            } else {
                assert(u[i - s.len()] == y);
                assert(u.contains(y));
            }
        }
        if part(m, x, n, y) {
            let j = choose|j: int| 0 <= j < n && over(m, #[trigger] m.kids(x)[j], y);
            if j < n - 1 {
                assert(part(m, x, (n - 1) as nat, y));
                assert(s.contains(y));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                assert(r[i] == y);
            } else {
                assert(u.contains(y));
                let i = choose|i: int| 0 <= i < u.len() && u[i] == y;
                assert(r[s.len() + i] == y);
            }
        }
    }
    assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < u.len() implies s[a] != u[b] by {
        let y = u[b];
        if s[a] == y {
            assert(s.contains(y));
            assert(u.contains(y));
            let j = choose|j: int| 0 <= j < n - 1 && over(m, #[trigger] m.kids(x)[j], y);
            apart(m, m.kids(x)[j], k, y);
        }
    }
    assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
        if a < s.len() && b < s.len() { assert(s[a] != s[b]); }
        else if a < s.len() { assert(s[a] != u[b - s.len()]); }
        else if b < s.len() { assert(s[b] != u[a - s.len()]); }
        else { assert(u[a - s.len()] != u[b - s.len()]); }
    }
}
pub proof fn pre_holds<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures pre(m, x).no_duplicates(), forall|y: NodeId| #[trigger] pre(m, x).contains(y) <==> m.has(y) && over(m, x, y)
    decreases below_top(m, x), m.kids(x).len() + 1
{
    let n = m.kids(x).len();
    pres_hold(m, x, n);
    let s = pres(m, x, n);
    let r = pre(m, x);
    assert(r == seq![x] + s);
    assert forall|y: NodeId| #[trigger] r.contains(y) <==> m.has(y) && over(m, x, y) by {
        if r.contains(y) {
            let i = choose|i: int| 0 <= i < r.len() && r[i] == y;
            if i > 0 {
                assert(s[i - 1] == y);
                assert(s.contains(y));
                let j = choose|j: int| 0 <= j < n && over(m, #[trigger] m.kids(x)[j], y);
                over_up(m, m.kids(x)[j], y);
            }
        }
        if m.has(y) && over(m, x, y) {
            if x == y { assert(r[0] == y); } else {
                let j = over_child(m, x, y);
                assert(part(m, x, n, y));
                assert(s.contains(y));
                let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
                assert(r[i + 1] == y);
            }
        }
    }
    assert(!s.contains(x)) by {
        if s.contains(x) {
            let j = choose|j: int| 0 <= j < n && over(m, #[trigger] m.kids(x)[j], x);
            over_ix(m, m.kids(x)[j], x);
        }
    }
    assert forall|a: int, b: int| 0 <= a < r.len() && 0 <= b < r.len() && a != b implies r[a] != r[b] by {
        if a > 0 && b > 0 { assert(s[a - 1] != s[b - 1]); }
        else if a > 0 { assert(s.contains(s[a - 1])); }
        else if b > 0 { assert(s.contains(s[b - 1])); }
    }
}
pub proof fn pres_hold<D>(m: ForestM<D>, x: NodeId, n: nat)
    requires trees(m), m.has(x), n <= m.kids(x).len()
    ensures pres(m, x, n).no_duplicates(), forall|y: NodeId| #[trigger] pres(m, x, n).contains(y) <==> part(m, x, n, y)
    decreases below_top(m, x), n
{
    if n > 0 {
        let k = m.kids(x)[n - 1];
        assert(m.par(k) == Some(x));
        pres_hold(m, x, (n - 1) as nat);
        pre_holds(m, k);
        let s = pres(m, x, (n - 1) as nat);
        let u = pre(m, k);
        two_parts(m, x, n, s, u);
        assert(pres(m, x, n) == s + u);
    }
}
/// y and z have the same parent and y comes first.
pub open spec fn sib_before<D>(m: ForestM<D>, y: NodeId, z: NodeId) -> bool {
    exists|p: NodeId, a: int, b: int| m.has(p) && 0 <= a < b < m.kids(p).len() && #[trigger] m.kids(p)[a] == y && #[trigger] m.kids(p)[b] == z
}
/// Nodes of an earlier subtree are neither parents, children nor later siblings of nodes of a later one.
proof fn cross<D>(m: ForestM<D>, x: NodeId, c: int, n: int, y: NodeId, z: NodeId)
    requires trees(m), m.has(x), 0 <= c < n < m.kids(x).len(), m.has(y), m.has(z),
        over(m, m.kids(x)[c], y), over(m, m.kids(x)[n], z)
    ensures m.par(z) != Some(y), m.par(y) != Some(z), !sib_before(m, z, y), y != z
{
    let j = m.kids(x)[c];
    let k = m.kids(x)[n];
    assert(m.par(j) == Some(x) && m.par(k) == Some(x));
    assert(j != k);
    over_ix(m, j, y);
    over_ix(m, k, z);
    if m.par(z) == Some(y) {
        assert(over(m, j, z)) by { if z == k { over_ix(m, j, x); } }
        apart(m, j, k, z);
    }
    if m.par(y) == Some(z) {
        assert(over(m, k, y));
        apart(m, j, k, y);
    }
    if y == z { apart(m, j, k, y); }
    if sib_before(m, z, y) {
        let (p, a, b) = choose|p: NodeId, a: int, b: int| m.has(p) && 0 <= a < b < m.kids(p).len() && #[trigger] m.kids(p)[a] == z && #[trigger] m.kids(p)[b] == y;
        assert(m.par(m.kids(p)[a]) == Some(p));
        assert(m.par(m.kids(p)[b]) == Some(p));
        if p == x {
            apart_self(m, k, z);
            apart_self(m, j, y);
            assert(m.kids(x)[a] == m.kids(x)[n]);
            assert(m.kids(x)[b] == m.kids(x)[c]);
        } else {
            assert(over(m, k, p));
            assert(over(m, j, p));
            over_ix(m, k, p);
            apart(m, j, k, p);
        }
    }
}
/// A sibling below a sibling is that sibling.
proof fn apart_self<D>(m: ForestM<D>, k: NodeId, z: NodeId)
    requires trees(m), m.has(z), over(m, k, z), m.par(k) is Some, m.par(z) == m.par(k)
    ensures k == z
{
    assert(over(m, z, z));
    apart(m, k, z, z);
}
/// Pre-order: parents first, earlier siblings first.
pub open spec fn pre_sorted<D>(m: ForestM<D>, s: Seq<NodeId>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && (m.par(s[j]) == Some(s[i]) || sib_before(m, s[i], s[j])) ==> i < j
}
/// Post-order: children first, earlier siblings first.
pub open spec fn post_sorted<D>(m: ForestM<D>, s: Seq<NodeId>) -> bool {
    forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && (m.par(s[i]) == Some(s[j]) || sib_before(m, s[i], s[j])) ==> i < j
}
pub proof fn pre_order<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures pre_sorted(m, pre(m, x))
    decreases below_top(m, x), m.kids(x).len() + 1
{
    let n = m.kids(x).len();
    pres_order(m, x, n);
    pres_hold(m, x, n);
    let s = pres(m, x, n);
    let r = pre(m, x);
    assert(r == seq![x] + s);
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && (m.par(r[j]) == Some(r[i]) || sib_before(m, r[i], r[j])) implies i < j by {
        if i > 0 { assert(s.contains(s[i - 1])); let c = choose|c: int| 0 <= c < n && over(m, #[trigger] m.kids(x)[c], s[i - 1]); over_ix(m, m.kids(x)[c], s[i - 1]); under(m, x, c); over_up(m, m.kids(x)[c], s[i - 1]); }
        if j > 0 { assert(s.contains(s[j - 1])); let c = choose|c: int| 0 <= c < n && over(m, #[trigger] m.kids(x)[c], s[j - 1]); over_ix(m, m.kids(x)[c], s[j - 1]); under(m, x, c); }
        if i == 0 && j == 0 { not_own(m, x); }
        if i > 0 && j > 0 { assert(r[i] == s[i - 1] && r[j] == s[j - 1]); }
        if i > 0 && j == 0 { no_sib(m, r[i], x); }
    }
}
proof fn under<D>(m: ForestM<D>, x: NodeId, c: int)
    requires trees(m), m.has(x), 0 <= c < m.kids(x).len()
    ensures m.par(m.kids(x)[c]) == Some(x), m.depth(x) < m.depth(m.kids(x)[c]) <= m.top
{
    assert(m.has(m.kids(x)[c]));
}
proof fn not_own<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures m.par(x) != Some(x), !sib_before(m, x, x)
{
    if sib_before(m, x, x) {
        let (p, a, b) = choose|p: NodeId, a: int, b: int| m.has(p) && 0 <= a < b < m.kids(p).len() && #[trigger] m.kids(p)[a] == x && #[trigger] m.kids(p)[b] == x;
        assert(m.kids(p)[a] != m.kids(p)[b]);
    }
}
proof fn no_sib<D>(m: ForestM<D>, y: NodeId, x: NodeId)
    requires trees(m), m.has(x), m.has(y), over(m, x, y), x != y
    ensures !sib_before(m, y, x), !sib_before(m, x, y)
{
    if sib_before(m, y, x) || sib_before(m, x, y) {
        let (p, a, b) = choose|p: NodeId, a: int, b: int| m.has(p) && 0 <= a < m.kids(p).len() && 0 <= b < m.kids(p).len() && #[trigger] m.kids(p)[a] == y && #[trigger] m.kids(p)[b] == x;
        assert(m.par(m.kids(p)[a]) == Some(p));
        assert(m.par(m.kids(p)[b]) == Some(p));
        apart_self(m, x, y);
    }
}
pub proof fn pres_order<D>(m: ForestM<D>, x: NodeId, n: nat)
    requires trees(m), m.has(x), n <= m.kids(x).len()
    ensures pre_sorted(m, pres(m, x, n))
    decreases below_top(m, x), n
{
    if n > 0 {
        let k = m.kids(x)[n - 1];
        under(m, x, n - 1);
        pres_order(m, x, (n - 1) as nat);
        pre_order(m, k);
        pres_hold(m, x, (n - 1) as nat);
        pre_holds(m, k);
        let s = pres(m, x, (n - 1) as nat);
        let u = pre(m, k);
        let r = pres(m, x, n);
        assert(r == s + u);
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && (m.par(r[j]) == Some(r[i]) || sib_before(m, r[i], r[j])) implies i < j by {
            crossing(m, x, n, s, u, i, j);
        }
    }
}
proof fn crossing<D>(m: ForestM<D>, x: NodeId, n: nat, s: Seq<NodeId>, u: Seq<NodeId>, i: int, j: int)
    requires trees(m), m.has(x), 0 < n <= m.kids(x).len(),
        forall|y: NodeId| #[trigger] s.contains(y) <==> part(m, x, (n - 1) as nat, y),
        forall|y: NodeId| #[trigger] u.contains(y) <==> m.has(y) && over(m, m.kids(x)[n - 1], y),
        0 <= i < (s + u).len(), 0 <= j < (s + u).len(),
    ensures
        i >= s.len() && j < s.len() ==> m.par((s + u)[i]) != Some((s + u)[j]) && m.par((s + u)[j]) != Some((s + u)[i]) && !sib_before(m, (s + u)[i], (s + u)[j]),
        i < s.len() ==> (s + u)[i] == s[i], j < s.len() ==> (s + u)[j] == s[j],
        i >= s.len() ==> (s + u)[i] == u[i - s.len()], j >= s.len() ==> (s + u)[j] == u[j - s.len()],
{
    if i >= s.len() && j < s.len() {
        let y = s[j];
        let z = u[i - s.len()];
        assert(s.contains(y));
        assert(u.contains(z));
        let c = choose|c: int| 0 <= c < n - 1 && over(m, #[trigger] m.kids(x)[c], y);
        cross(m, x, c, n - 1, y, z);
    }
}
pub proof fn post_order<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures post_sorted(m, post(m, x))
    decreases below_top(m, x), m.kids(x).len() + 1
{
    let n = m.kids(x).len();
    posts_order(m, x, n);
    posts_hold(m, x, n);
    let s = posts(m, x, n);
    let r = post(m, x);
    assert(r == s.push(x));
    assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && (m.par(r[i]) == Some(r[j]) || sib_before(m, r[i], r[j])) implies i < j by {
        if i < s.len() { assert(s.contains(s[i])); let c = choose|c: int| 0 <= c < n && over(m, #[trigger] m.kids(x)[c], s[i]); over_ix(m, m.kids(x)[c], s[i]); under(m, x, c); }
        if j < s.len() { assert(s.contains(s[j])); let c = choose|c: int| 0 <= c < n && over(m, #[trigger] m.kids(x)[c], s[j]); over_ix(m, m.kids(x)[c], s[j]); under(m, x, c); over_up(m, m.kids(x)[c], s[j]); }
        if i == s.len() && j == s.len() { not_own(m, x); }
        if i < s.len() && j < s.len() { assert(r[i] == s[i] && r[j] == s[j]); }
        if i == s.len() && j < s.len() { no_sib(m, r[j], x); }
    }
}
pub proof fn posts_order<D>(m: ForestM<D>, x: NodeId, n: nat)
    requires trees(m), m.has(x), n <= m.kids(x).len()
    ensures post_sorted(m, posts(m, x, n))
    decreases below_top(m, x), n
{
    if n > 0 {
        let k = m.kids(x)[n - 1];
        under(m, x, n - 1);
        posts_order(m, x, (n - 1) as nat);
        post_order(m, k);
        posts_hold(m, x, (n - 1) as nat);
        post_holds(m, k);
        let s = posts(m, x, (n - 1) as nat);
        let u = post(m, k);
        let r = posts(m, x, n);
        assert(r == s + u);
        assert forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < r.len() && 0 <= j < r.len() && (m.par(r[i]) == Some(r[j]) || sib_before(m, r[i], r[j])) implies i < j by {
            crossing(m, x, n, s, u, i, j);
        }
    }
}
/// Heights fit.
pub proof fn tall_fits<D>(m: ForestM<D>, x: NodeId)
    requires trees(m), m.has(x)
    ensures tall(m, x) + m.depth(x) <= m.top, tall(m, x) == 0 <==> m.kids(x).len() == 0
    decreases below_top(m, x), m.kids(x).len() + 1
{
    talls_fit(m, x, m.kids(x).len());
}
pub proof fn talls_fit<D>(m: ForestM<D>, x: NodeId, n: nat)
    requires trees(m), m.has(x), n <= m.kids(x).len()
    ensures talls(m, x, n) + m.depth(x) <= m.top, talls(m, x, n) == 0 <==> n == 0,
        forall|j: int| 0 <= j < n ==> tall(m, #[trigger] m.kids(x)[j]) < talls(m, x, n),
        n > 0 ==> exists|j: int| 0 <= j < n && 1 + tall(m, #[trigger] m.kids(x)[j]) == talls(m, x, n),
    decreases below_top(m, x), n
{
    if n > 0 {
        let k = m.kids(x)[n - 1];
        assert(m.par(k) == Some(x));
        talls_fit(m, x, (n - 1) as nat);
        tall_fits(m, k);
    }
}

} // verus!
}
