// H03: every operation finds its nodes in the working copy, and the path computed after an insertion is the one that
// was valid before it.
pub mod shadow_plan {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use crate::prelude::*;
use crate::tree_spec::*;
use crate::matching_types::*;
use crate::pairs_spec::*;
use crate::chawathe_spec::*;
use crate::forest::*;
use crate::forest_mut::*;
use crate::forest_mut::up;
use crate::forest_path::*;
use crate::html_types::*;
use crate::html_props::*;
use crate::html_patch::*;
use crate::shadow::*;
use crate::shadow::real;
use crate::shadow_trees::*;
use crate::shadow_steps::*;
verus! {

// ---- before the deletions everything hangs below the super root
pub proof fn no_dels<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int)
    requires ready(j), 0 <= k < j.ops.len(), !is_del(j.ops[k])
    ensures forall|a: NodeId| !#[trigger] gone(j, k, a)
{
    reveal(ready);
    assert forall|a: NodeId| !#[trigger] gone(j, k, a) by {
        if gone(j, k, a) {
            let l = choose|l: int| 0 <= l < k && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a;
            assert(phase(j.ops[l]) <= phase(j.ops[k]));
        }
    }
}
pub proof fn all_up<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>, x: NodeId)
    requires st_old(j, m), st_up(j, k, m), forall|a: NodeId| !#[trigger] gone(j, k, a), m.has(x)
    ensures above(m, j.r, x)
    decreases m.depth(x)
{
    if x == j.r { above_self(m, x); } else {
        assert(!gone(j, k, x));
        assert(trees(m)) by { reveal(st_old); }
        assert(m.par(x) is Some) by { reveal(st_up); }
        let p = m.par(x)->0;
        assert(m.has(p));
        all_up(j, k, m, p);
        above_down(m, j.r, x);
    }
}
// ---- the parents of what is placed
/// The parent of a node outside opaque nodes is outside opaque nodes.
pub proof fn vis_up<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, b: NodeId)
    requires ready(j), vis(j, b), j.tb.s_parent(b) is Some
    ensures vis(j, up_b(j, b))
{
    reveal(ready);
    lemma_in_op_step(&j.tb, b);
}
pub proof fn wanted<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, p: NodeId) -> (l: int)
    requires ready(j), vis(j, p), mate(j, p) is None
    ensures 0 <= l < j.ops.len(), is_ins(j.ops[l]), node_b(j.ops[l]) == p
{
    roots(j);
    has_up(j, p);
    reveal(ready);
    assert(want_ins(&j.tb, &j.mt, p));
    choose|l: int| 0 <= l < j.ops.len() && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == p
}
pub proof fn ins_ok<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len(), is_ins(j.ops[k])
    ensures ({ let b = node_b(j.ops[k]); vis(j, b) && j.tb.s_parent(b) is Some && !settled(j, k, b) && mate(j, b) is None && sh.contains_key(up_b(j, b))
        && ins_data(&j.tb, j.ops[k]) })
{
    reveal(going);
    let b = node_b(j.ops[k]);
    assert(want_ins(&j.tb, &j.mt, b) && ins_data(&j.tb, j.ops[k])) by { reveal(ready); }
    let p = up_b(j, b);
    not_self(j, b);
    vis_up(j, b);
    if born(j, k, b) {
        let l = choose|l: int| 0 <= l < k && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == b;
        assert(node_b(j.ops[l]) != node_b(j.ops[k])) by { reveal(ready); }
    }
    assert(named(j, k, p)) by {
        if mate(j, p) is None {
            let l = wanted(j, p);
            assert(l < k) by { reveal(ready); }
            assert(born(j, k, p));
        }
    }
    assert(sh.contains_key(p)) by { reveal(st_name); }
}
pub proof fn mov_ok<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len(), is_mov(j.ops[k])
    ensures ({ let b = node_b(j.ops[k]); let x = node_a(j.ops[k]); vis(j, b) && j.tb.s_parent(b) is Some && !settled(j, k, b) && mate(j, b) == Some(x)
        && sh.contains_key(up_b(j, b)) && sh.contains_key(b) && sh[b] == x && want_mov(&j.ta, &j.tb, &j.mt, x, b) && mov_data(&j.tb, j.ops[k]) })
{
    reveal(going);
    let b = node_b(j.ops[k]);
    let x = node_a(j.ops[k]);
    assert(want_mov(&j.ta, &j.tb, &j.mt, x, b) && mov_data(&j.tb, j.ops[k])) by { reveal(ready); }
    mates_a(j, x);
    let p = up_b(j, b);
    not_self(j, b);
    vis_up(j, b);
    if born(j, k, b) {
        let l = choose|l: int| 0 <= l < k && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == b;
        assert(want_ins(&j.tb, &j.mt, b)) by { reveal(ready); }
    }
    if shifted(j, k, x) {
        let l = choose|l: int| 0 <= l < k && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == x;
        assert(node_a(j.ops[l]) != node_a(j.ops[k])) by { reveal(ready); }
    }
    assert(named(j, k, p)) by {
        if mate(j, p) is None {
            let l = wanted(j, p);
            assert(l < k) by { reveal(ready); if l > k { assert(phase(j.ops[k]) <= phase(j.ops[l])); } }
            assert(born(j, k, p));
        }
    }
    assert(named(j, k, b));
    assert(sh.contains_key(p) && sh.contains_key(b) && sh[b] == x) by { reveal(st_name); }
}
/// Everything above a node is in its place when the node's turn to move comes.
pub proof fn settled_above<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, c: NodeId)
    requires ready(j), 0 <= k < j.ops.len(), is_mov(j.ops[k]), vis(j, c), c != node_b(j.ops[k]), anc(&j.tb, c, node_b(j.ops[k])), c != j.tb.s_root()
    ensures settled(j, k, c)
{
    if mate(j, c) is None {
        let l = wanted(j, c);
        assert(l < k) by { reveal(ready); if l > k { assert(phase(j.ops[k]) <= phase(j.ops[l])); } }
        assert(born(j, k, c));
    } else {
        let a = mate(j, c)->0;
        if want_mov(&j.ta, &j.tb, &j.mt, a, c) {
            reveal(ready);
            let l = choose|l: int| 0 <= l < j.ops.len() && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a && node_b(j.ops[l]) == c;
            assert(l < k);
            assert(shifted(j, k, a));
        }
    }
}
/// .. so nothing is moved below itself.
pub proof fn mov_clear<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh, c: NodeId)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len(), is_mov(j.ops[k]), vis(j, c), c != node_b(j.ops[k]), anc(&j.tb, c, node_b(j.ops[k]))
    ensures sh.contains_key(c), !above(z, node_a(j.ops[k]), sh[c])
    decreases usize::MAX - j.tb.s_height(c)
{
    let b = node_b(j.ops[k]);
    let x = node_a(j.ops[k]);
    mov_ok(j, k, z, sh);
    roots(j);
    assert(st_old(j, z) && st_name(j, k, z, sh) && st_home(j, k, z, sh)) by { reveal(going); }
    mates(j, b);
    assert(slotted(z, j.r) && real(z, j.r, x) && slot_top(z, j.r, j.ta.s_root())) by { reveal(st_old); }
    if c == j.tb.s_root() {
        assert(named(j, k, c));
        assert(sh.contains_key(c) && sh[c] == j.ta.s_root()) by { reveal(st_name); }
        assert(x != sh[c]) by { if x == sh[c] { mates(j, c); } }
        if above(z, x, sh[c]) {
            above_up(z, x, sh[c]);
            above_slot(z, j.r, z.par(sh[c])->0, x);
        }
    } else {
        settled_above(j, k, c);
        assert(at_home(j, z, sh, c)) by { reveal(st_home); let q = sh[c]; }
        let q = up_b(j, c);
        has_up(j, c);
        vis_up(j, c);
        lemma_anc_step(&j.tb, q, c);
        lemma_anc_refl(&j.tb, q);
        assert(anc(&j.tb, q, b) && q != b && j.tb.s_height(q) > j.tb.s_height(c)) by {
            reveal(ready);
            anc_both(j, q, c, b);
            lemma_anc_height(&j.tb, c, b);
        }
        mov_clear(j, k, z, sh, q);
        assert(x != sh[c]) by { reveal(st_name); assert(sh[b] != sh[c]); }
        if above(z, x, sh[c]) { above_up(z, x, sh[c]); }
    }
}
pub proof fn anc_both<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, x: NodeId, y: NodeId, b: NodeId)
    requires j.tb.s_parent(y) == Some(x), anc(&j.tb, y, b)
    ensures anc(&j.tb, x, b)
{
    let n = choose|n: nat| #[trigger] crate::tree_spec::up(&j.tb, b, n) == Some(y);
    assert(crate::tree_spec::up(&j.tb, b, n + 1) == Some(x));
}
// ---- the deletions
/// From the first deletion on, everything is in its place.
pub open spec fn late<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int) -> bool {
    0 <= k <= j.ops.len() && forall|l: int| #![trigger j.ops[l]] k <= l < j.ops.len() ==> is_del(j.ops[l])
}
pub proof fn dels_late<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int)
    requires ready(j), 0 <= k < j.ops.len(), is_del(j.ops[k])
    ensures late(j, k)
{
    reveal(ready);
    assert forall|l: int| #![trigger j.ops[l]] k <= l < j.ops.len() implies is_del(j.ops[l]) by { if k < l { assert(phase(j.ops[k]) <= phase(j.ops[l])); } }
}
pub proof fn late_settled<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b: NodeId)
    requires ready(j), late(j, k), vis(j, b), b != j.tb.s_root()
    ensures settled(j, k, b)
{
    if mate(j, b) is None {
        let l = wanted(j, b);
        assert(l < k);
        assert(born(j, k, b));
    } else {
        let a = mate(j, b)->0;
        if want_mov(&j.ta, &j.tb, &j.mt, a, b) {
            reveal(ready);
            let l = choose|l: int| 0 <= l < j.ops.len() && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a && node_b(j.ops[l]) == b;
            assert(l < k);
            assert(shifted(j, k, a));
        }
    }
}
/// A node inside an opaque node of the new page moves with its parent.
pub proof fn hidden_stays<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, b: NodeId)
    requires ready(j), 0 <= k <= j.ops.len(), named(j, k, b), in_op(&j.tb, b)
    ensures mate(j, b) is Some, ({ let a = mate(j, b)->0; j.ta.s_has(a) && !shifted(j, k, a) && !gone(j, k, a) && parents_paired(&j.ta, &j.tb, &j.mt, a, b) })
{
    if born(j, k, b) {
        let l = choose|l: int| 0 <= l < k && is_ins(#[trigger] j.ops[l]) && node_b(j.ops[l]) == b;
        assert(want_ins(&j.tb, &j.mt, b)) by { reveal(ready); }
    }
    mates(j, b);
    let a = mate(j, b)->0;
    if shifted(j, k, a) {
        let l = choose|l: int| 0 <= l < k && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a;
        assert(want_mov(&j.ta, &j.tb, &j.mt, a, node_b(j.ops[l]))) by { reveal(ready); }
    }
    not_gone(j, k, a);
}
pub proof fn not_gone<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, a: NodeId)
    requires ready(j), 0 <= k <= j.ops.len(), j.mt.s_get_b(a) is Some
    ensures !gone(j, k, a)
{
    if gone(j, k, a) {
        let l = choose|l: int| 0 <= l < k && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a;
        assert(want_del(&j.ta, &j.mt, a)) by { reveal(ready); }
    }
}
pub proof fn top_up<D>(m: ForestM<D>, r: NodeId, x: NodeId)
    requires slot_top(m, r, x)
    ensures above(m, r, x)
{
    above_self(m, r);
    above_down(m, r, m.par(x)->0);
    above_down(m, r, x);
}
/// During and after the deletions, the nodes of the new page hang below the super root.
pub proof fn hangs_b<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>, sh: Sh, b: NodeId)
    requires ready(j), going(j, k, m, sh), late(j, k), sh.contains_key(b)
    ensures above(m, j.r, sh[b])
    decreases m.depth(sh[b])
{
    roots(j);
    assert(st_old(j, m) && st_name(j, k, m, sh) && st_home(j, k, m, sh) && st_stay(j, k, m)) by { reveal(going); }
    assert(named(j, k, b) && real(m, j.r, sh[b])) by { reveal(st_name); }
    assert(trees(m) && slot_top(m, j.r, j.ta.s_root())) by { reveal(st_old); }
    if b == j.tb.s_root() {
        assert(sh[b] == j.ta.s_root()) by { reveal(st_name); }
        top_up(m, j.r, sh[b]);
    } else if vis(j, b) {
        late_settled(j, k, b);
        assert(at_home(j, m, sh, b)) by { reveal(st_home); let q = sh[b]; }
        assert(m.has(sh[b]));
        hangs_b(j, k, m, sh, up_b(j, b));
        above_down(m, j.r, sh[b]);
    } else {
        hidden_stays(j, k, b);
        let a = mate(j, b)->0;
        assert(sh[b] == a) by { reveal(st_name); }
        let q = j.ta.s_parent(a);
        assert(m.par(a) == j.ta.s_parent(a) || slot_top(m, j.r, a)) by { reveal(st_stay); }
        if slot_top(m, j.r, a) { top_up(m, j.r, a); } else {
            not_self(j, b);
            assert(j.ta.s_has(q->0)) by { reveal(ready); }
            mates_a(j, q->0);
            let c = up_b(j, b);
            assert(named(j, k, c));
            assert(sh.contains_key(c) && sh[c] == q->0) by { reveal(st_name); }
            assert(m.has(a));
            hangs_b(j, k, m, sh, c);
            above_down(m, j.r, a);
        }
    }
}
/// .. and so do the nodes still to be deleted.
pub proof fn hangs_a<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, m: ShM<'a>, sh: Sh, a: NodeId)
    requires ready(j), going(j, k, m, sh), late(j, k), want_del(&j.ta, &j.mt, a), !gone(j, k, a)
    ensures above(m, j.r, a), real(m, j.r, a)
    decreases m.depth(a)
{
    roots(j);
    assert(st_old(j, m) && st_name(j, k, m, sh) && st_stay(j, k, m)) by { reveal(going); }
    assert(trees(m) && real(m, j.r, a)) by { reveal(st_old); }
    if shifted(j, k, a) {
        let l = choose|l: int| 0 <= l < k && is_mov(#[trigger] j.ops[l]) && node_a(j.ops[l]) == a;
        assert(want_mov(&j.ta, &j.tb, &j.mt, a, node_b(j.ops[l]))) by { reveal(ready); }
    }
    let q = j.ta.s_parent(a);
    assert(m.par(a) == j.ta.s_parent(a) || slot_top(m, j.r, a)) by { reveal(st_stay); }
    if slot_top(m, j.r, a) { top_up(m, j.r, a); } else {
        assert(a != j.ta.s_root()) by { mates(j, j.tb.s_root()); }
        assert(q is Some && j.ta.s_has(q->0) && !in_op(&j.ta, q->0)) by { reveal(ready); lemma_in_op_step(&j.ta, a); }
        let p = q->0;
        assert(m.has(a));
        if j.mt.s_get_b(p) is Some {
            mates_a(j, p);
            let c = j.mt.s_get_b(p)->0;
            assert(named(j, k, c));
            assert(sh.contains_key(c) && sh[c] == p) by { reveal(st_name); }
            hangs_b(j, k, m, sh, c);
        } else {
            assert(want_del(&j.ta, &j.mt, p));
            if gone(j, k, p) {
                reveal(ready);
                let l = choose|l: int| 0 <= l < k && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == p;
                let i = choose|i: int| 0 <= i < j.ops.len() && is_del(#[trigger] j.ops[i]) && node_a(j.ops[i]) == a;
                assert(i < l);
                assert(gone(j, k, a));
            }
            hangs_a(j, k, m, sh, p);
        }
        above_down(m, j.r, a);
    }
}
pub proof fn del_ok<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, k: int, z: ShM<'a>, sh: Sh)
    requires ready(j), going(j, k, z, sh), 0 <= k < j.ops.len(), is_del(j.ops[k])
    ensures ({ let x = node_a(j.ops[k]); want_del(&j.ta, &j.mt, x) && j.ta.s_has(x) && real(z, j.r, x) && above(z, j.r, x) && z.par(x) is Some })
{
    let x = node_a(j.ops[k]);
    assert(want_del(&j.ta, &j.mt, x)) by { reveal(ready); }
    dels_late(j, k);
    if gone(j, k, x) {
        let l = choose|l: int| 0 <= l < k && is_del(#[trigger] j.ops[l]) && node_a(j.ops[l]) == x;
        assert(node_a(j.ops[l]) != node_a(j.ops[k])) by { reveal(ready); }
    }
    hangs_a(j, k, z, sh, x);
    above_up(z, j.r, x);
}
// ---- paths, before and after
/// Walking only through nodes whose children did not change.
pub proof fn walk_keep<D>(a: ForestM<D>, b: ForestM<D>, t: NodeId, path: Seq<u32>)
    requires forall|i: int| #![trigger path.take(i)] 0 <= i < path.len() && walk(b, t, path.take(i)) is Some ==> a.kids(walk(b, t, path.take(i))->0) == b.kids(walk(b, t, path.take(i))->0)
    ensures walk(a, t, path) == walk(b, t, path)
    decreases path.len()
{
    if path.len() > 0 {
        let q = path.drop_last();
        assert(path.take(path.len() - 1) =~= q);
        assert forall|i: int| #![trigger q.take(i)] 0 <= i < q.len() && walk(b, t, q.take(i)) is Some implies a.kids(walk(b, t, q.take(i))->0) == b.kids(walk(b, t, q.take(i))->0) by {
            assert(q.take(i) =~= path.take(i));
        }
        walk_keep(a, b, t, q);
    }
}
/// A walk goes downwards.
pub proof fn walk_down<D>(m: ForestM<D>, t: NodeId, path: Seq<u32>)
    requires trees(m), m.has(t), walk(m, t, path) is Some
    ensures m.has(walk(m, t, path)->0), above(m, t, walk(m, t, path)->0), m.depth(walk(m, t, path)->0) == m.depth(t) + path.len(),
        path.len() > 0 ==> m.par(walk(m, t, path)->0) is Some && m.par(walk(m, t, path)->0) == walk(m, t, path.drop_last())
    decreases path.len()
{
    if path.len() == 0 { above_self(m, t); } else {
        walk_down(m, t, path.drop_last());
        let x = walk(m, t, path.drop_last())->0;
        kid_depth(m, x, path.last() as int);
        above_down(m, t, m.kids(x)[path.last() as int]);
    }
}
/// The nodes on the way are there, too.
pub proof fn walk_prefix<D>(m: ForestM<D>, t: NodeId, path: Seq<u32>, i: int)
    requires walk(m, t, path) is Some, 0 <= i <= path.len()
    ensures walk(m, t, path.take(i)) is Some
{
    if walk(m, t, path.take(i)) is None { walk_stuck(m, t, path, i); }
}
/// Above `y` in the new state, below the place of insertion: above it in the old state.
pub proof fn above_before<'a>(c: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, d: NodeId, y: NodeId)
    requires trees(c), trees(b), c.has(n), c.has(y), pos < c.kids(p).len(), d == c.kids(p)[pos], c.has(p), pos >= 0, b.has(p), b.has(n),
        sput(c, b, r, p, pos, n, slot), b.depth(y) <= b.depth(p), above(b, d, y)
    ensures above(c, d, y)
    decreases b.depth(y)
{
    if y == d { above_self(c, y); } else {
        above_up(b, d, y);
        let w = b.par(y)->0;
        assert(b.par(n) == Some(p));
        assert(b.depth(n) == b.depth(p) + 1);
        assert(y != n);
        assert(b.has(y));
        assert(b.par(y) == c.par(y));
        assert(c.has(w) && b.has(w));
        above_before(c, b, r, p, pos, n, slot, d, w);
        above_down(c, d, y);
    }
}
/// The path of the parent, computed after the insertion, is its path before.
pub proof fn lead_back<'a>(c: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, path: Seq<u32>)
    requires slotted(c, r), slotted(b, r), real(c, r, p), c.has(n), c.par(n) is None, n != r, pos >= 0, sput(c, b, r, p, pos, n, slot), lead(b, r, path) == Some(p)
    ensures lead(c, r, path) == Some(p)
{
    let s = b.kids(r)[path[0] as int];
    let t = b.kids(s)[0];
    let w = path.skip(1);
    kid_index(b, r, path[0] as int);
    kid_index(b, s, 0);
    walk_down(b, t, w);
    assert(b.has(p) && b.has(n));
    if path[0] >= c.kids(r).len() {
        assert(pos < c.kids(p).len());
        let d = c.kids(p)[pos];
        assert(t == d);
        kid_index(c, p, pos);
        above_before(c, b, r, p, pos, n, slot, d, p);
        above_depth(c, d, p);
        assert(c.depth(d) == c.depth(p) + 1);
    } else {
        assert(c.kids(r)[path[0] as int] == s);
        kid_index(c, r, path[0] as int);
        assert(s != p && s != r);
        assert(b.kids(s) == c.kids(s));
        assert(c.kids(s)[0] == t);
        kid_index(c, s, 0);
        assert forall|i: int| #![trigger w.take(i)] 0 <= i < w.len() && walk(b, t, w.take(i)) is Some implies c.kids(walk(b, t, w.take(i))->0) == b.kids(walk(b, t, w.take(i))->0) by {
            back_has(c, b, r, p, pos, n, slot, t, w, i);
        }
        walk_keep(c, b, t, w);
    }
}
/// On the way to `p`, every node was there before, with the same children.
pub proof fn back_has<'a>(c: ShM<'a>, b: ShM<'a>, r: NodeId, p: NodeId, pos: int, n: NodeId, slot: Option<u32>, t: NodeId, w: Seq<u32>, i: int)
    requires slotted(c, r), slotted(b, r), sput(c, b, r, p, pos, n, slot), c.has(t), b.has(t), t != r, walk(b, t, w) == Some(p), 0 <= i < w.len()
    ensures walk(b, t, w.take(i)) is Some, ({ let x = walk(b, t, w.take(i))->0; c.has(x) && x != p && x != r && b.kids(x) == c.kids(x) })
    decreases i
{
    walk_prefix(b, t, w, i);
    let q = w.take(i);
    let x = walk(b, t, q)->0;
    walk_down(b, t, q);
    walk_down(b, t, w);
    assert(x != p);
    if i > 0 {
        back_has(c, b, r, p, pos, n, slot, t, w, i - 1);
        assert(q.drop_last() =~= w.take(i - 1));
        let y = walk(b, t, w.take(i - 1))->0;
        assert(b.kids(y)[q.last() as int] == x);
        kid_index(c, y, q.last() as int);
        assert(b.par(r) is None);
    }
}
/// A node just made is on no path.
pub proof fn lead_made<'a>(z: ShM<'a>, c: ShM<'a>, r: NodeId, x: NodeId, d: NodeData<HtmlTreeTypes<'a>>, path: Seq<u32>)
    requires slotted(z, r), slotted(c, r), created(z, c, x, d)
    ensures lead(z, r, path) == lead(c, r, path)
{
    assert(c.kids(r) == z.kids(r));
    if path.len() > 0 && path[0] < z.kids(r).len() {
        let s = z.kids(r)[path[0] as int];
        kid_index(z, r, path[0] as int);
        assert(c.kids(s) == z.kids(s));
        if z.kids(s).len() > 0 {
            kid_index(z, s, 0);
            walk_made(z, c, x, d, z.kids(s)[0], path.skip(1));
        }
    }
}
pub proof fn walk_made<'a>(z: ShM<'a>, c: ShM<'a>, x: NodeId, d: NodeData<HtmlTreeTypes<'a>>, t: NodeId, path: Seq<u32>)
    requires trees(z), created(z, c, x, d), z.has(t)
    ensures walk(z, t, path) == walk(c, t, path)
    decreases path.len()
{
    if path.len() > 0 {
        walk_made(z, c, x, d, t, path.drop_last());
        walk_in(z, t, path.drop_last());
        if walk(z, t, path.drop_last()) is Some { let y = walk(z, t, path.drop_last())->0; assert(c.kids(y) == z.kids(y)); }
    }
}
/// Paths of one number name the top of a slot; longer ones something below.
pub proof fn lead_top<D>(m: ForestM<D>, r: NodeId, path: Seq<u32>)
    requires slotted(m, r), lead(m, r, path) is Some
    ensures ({ let x = lead(m, r, path)->0; real(m, r, x) && (path.len() == 1 <==> slot_top(m, r, x)) && path.len() >= 1 })
{
    let s = m.kids(r)[path[0] as int];
    kid_index(m, r, path[0] as int);
    let t = m.kids(s)[0];
    kid_index(m, s, 0);
    let w = path.skip(1);
    let x = lead(m, r, path)->0;
    walk_down(m, t, w);
    assert(m.par(s) == Some(r) && m.depth(s) == m.depth(r) + 1);
    assert(m.depth(t) == m.depth(s) + 1);
    if w.len() == 0 { assert(x == t); assert(m.par(x) == Some(s)); } else {
        let y = m.par(x)->0;
        assert(m.has(y));
        if m.par(x) == Some(r) {}
        if slot_top(m, r, x) { assert(m.has(m.par(y)->0)); assert(m.depth(y) == m.depth(r) + 1); }
    }
}


// ---- the beginning
/// The matched nodes, and nothing else.
pub open spec fn pairs_in(sh: Sh, ps: Seq<(NodeId, NodeId)>) -> bool {
    &&& forall|i: int| #![trigger ps[i]] 0 <= i < ps.len() ==> sh.contains_key(ps[i].1) && sh[ps[i].1] == ps[i].0
    &&& forall|b: NodeId| #![trigger sh.contains_key(b)] sh.contains_key(b) ==> exists|i: int| 0 <= i < ps.len() && (#[trigger] ps[i]).1 == b
}
pub proof fn pairs_mates<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, sh: Sh, b: NodeId)
    requires ready(j), pairs_in(sh, j.mt.pairs@)
    ensures sh.contains_key(b) <==> (j.tb.s_has(b) && mate(j, b) is Some), sh.contains_key(b) ==> mate(j, b) == Some(sh[b])
{
    reveal(ready);
    let m = &j.mt;
    if sh.contains_key(b) {
        let i = choose|i: int| 0 <= i < m.pairs@.len() && (#[trigger] m.pairs@[i]).1 == b;
        assert(m.s_get_a(m.pairs@[i].1) == Some(m.pairs@[i].0));
        assert(j.tb.s_has(m.pairs@[i].1));
    }
    if j.tb.s_has(b) && mate(j, b) is Some {
        mates(j, b);
        let a = mate(j, b)->0;
        lemma_pair_of(&j.ta, &j.tb, m, a, b);
        let i = choose|i: int| 0 <= i < m.pairs@.len() && m.pairs@[i] == (a, b);
        assert(m.pairs@[i].1 == b);
    }
}
pub proof fn start_going<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh)
    requires ready(j), hung(j.ta.0.arena@, m, j.ta.s_root(), j.r), pairs_in(sh, j.mt.pairs@)
    ensures going(j, 0, m, sh)
{
    roots(j);
    nothing_yet(j);
    let a0 = j.ta.0.arena@;
    let root = j.ta.s_root();
    assert(trees(a0)) by { reveal(ready); }
    assert forall|a: NodeId| #![trigger j.ta.s_has(a)] j.ta.s_has(a) implies real(m, j.r, a) by {
        assert(a0.has(a) && m.has(a));
        if a != root { assert(m.par(a) == a0.par(a)); if a0.par(a) is Some { assert(a0.has(a0.par(a)->0)); } }
    }
    assert(st_old(j, m)) by { reveal(st_old); }
    assert(st_name(j, 0, m, sh)) by {
        reveal(st_name);
        assert forall|b: NodeId| #![trigger sh.contains_key(b)] sh.contains_key(b) <==> named(j, 0, b) by { pairs_mates(j, sh, b); }
        assert forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) implies real(m, j.r, sh[b]) by { pairs_mates(j, sh, b); mates(j, b); }
        assert forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) && mate(j, b) is Some implies sh[b] == mate(j, b)->0 by { pairs_mates(j, sh, b); }
        assert forall|b: NodeId| #![trigger sh[b]] sh.contains_key(b) && mate(j, b) is None implies !j.ta.s_has(sh[b]) by { pairs_mates(j, sh, b); }
        assert forall|b: NodeId, c: NodeId| #![trigger sh[b], sh[c]] sh.contains_key(b) && sh.contains_key(c) && sh[b] == sh[c] implies b == c by {
            pairs_mates(j, sh, b); mates(j, b); pairs_mates(j, sh, c); mates(j, c);
        }
    }
    assert(st_up(j, 0, m)) by {
        reveal(st_up);
        assert forall|x: NodeId| #![trigger m.par(x)] m.has(x) && x != j.r && m.par(x) is None implies gone(j, 0, x) by {
            assert(a0.has(x) && x != root);
            assert(j.ta.s_has(x));
            assert(j.ta.s_parent(x) is Some) by { reveal(ready); }
        }
    }
    assert(st_stay(j, 0, m)) by {
        reveal(st_stay);
        assert forall|a: NodeId| #![trigger j.ta.s_parent(a)] j.ta.s_has(a) && !shifted(j, 0, a) && !gone(j, 0, a) implies m.par(a) == j.ta.s_parent(a) || slot_top(m, j.r, a) by {
            assert(a0.has(a));
            if a != root { assert(m.par(a) == a0.par(a)); }
        }
    }
    assert(st_home(j, 0, m, sh)) by {
        reveal(st_home);
        assert forall|b: NodeId| #![trigger sh[b]] settled(j, 0, b) implies at_home(j, m, sh, b) by { start_home(j, m, sh, b); }
    }
    reveal(going);
}
pub proof fn start_home<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, b: NodeId)
    requires ready(j), hung(j.ta.0.arena@, m, j.ta.s_root(), j.r), pairs_in(sh, j.mt.pairs@), settled(j, 0, b)
    ensures at_home(j, m, sh, b)
{
    let a0 = j.ta.0.arena@;
    let a = mate(j, b)->0;
    roots(j);
    nothing_yet(j);
    mates(j, b);
    has_up(j, b);
    assert(vis_pair(&j.ta, &j.tb, &j.mt, a, b));
    assert(a != j.ta.s_root()) by { mates(j, j.tb.s_root()); }
    let q = j.ta.s_parent(a);
    assert(q is Some) by { reveal(ready); }
    assert(!place_changed(&j.ta, &j.tb, &j.mt, a, b));
    let c = up_b(j, b);
    assert(j.mt.s_get_b(q->0) == Some(c));
    assert(j.ta.s_has(q->0)) by { reveal(ready); }
    mates_a(j, q->0);
    pairs_mates(j, sh, b);
    pairs_mates(j, sh, c);
    assert(sh[b] == a && sh[c] == q->0);
    assert(m.par(a) == a0.par(a)) by { assert(a0.has(a)); }
    assert(m.kids(q->0) == a0.kids(q->0)) by { assert(a0.has(q->0)); }
    assert(j.ta.s_position(a) == j.tb.s_position(b));
    assert(j.ta.s_children(q->0)[j.ta.s_position(a) as int] == a && j.ta.s_position(a) < j.ta.s_children(q->0).len()) by { reveal(ready); }
}


#[verifier::rlimit(3)]
proof fn must_fail_ready<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>)
    requires ready(j), j.ops.len() > 5, is_mov(j.ops[2]), is_del(j.ops[4])
{
    reveal(ready);
    assert(false);
}
#[verifier::rlimit(3)]
proof fn must_fail_going<'a, TB: DiffTree<Types = HtmlTreeTypes<'a>>>(j: Job<'a, TB>, m: ShM<'a>, sh: Sh, b: NodeId)
    requires ready(j), going(j, 3, m, sh), 3 < j.ops.len(), is_mov(j.ops[3]), sh.contains_key(b), vis(j, b)
{
    reveal(ready); reveal(going); reveal(st_old); reveal(st_name); reveal(st_up); reveal(st_stay); reveal(st_home);
    assert(false);
}

} // verus!
}
