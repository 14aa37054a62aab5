//! Case descriptions, the tree implementations handed to the code under test, and case generation.
use cinereus::indextree::{Arena, NodeId};
use cinereus::*;
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::fmt::Write as _;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.rotate_left(29).wrapping_mul(0xD6E8FEB86659FD93));
    r.next()
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct P {
    pub kv: Vec<(u8, u8)>,
    pub sim: u8,
}

impl Properties for P {
    type Key = u8;
    type Value = u8;
    fn similarity(&self, o: &Self) -> f64 {
        match self.sim {
            0 => 1.0,
            1 => {
                if self.kv.is_empty() && o.kv.is_empty() {
                    return 1.0;
                }
                let c = self.kv.iter().filter(|(k, _)| o.kv.iter().any(|(l, _)| k == l)).count();
                (2 * c) as f64 / (self.kv.len() + o.kv.len()) as f64
            }
            2 => if self.kv == o.kv { 1.0 } else { 0.0 },
            m => {
                let h = |p: &P| p.kv.iter().fold(7u64, |a, &(k, v)| mix(a, (k as u64) << 8 | v as u64));
                let x = mix(h(self).wrapping_mul(3), h(o)) % 6;
                match x {
                    0 => 0.0,
                    1 => 0.3,
                    2 => 0.5,
                    3 => 0.7,
                    4 => 1.0,
                    _ => if m == 4 { f64::NAN } else { 0.9 },
                }
            }
        }
    }
    fn diff(&self, o: &Self) -> Vec<PropertyInFinalState<u8, u8>> {
        o.kv.iter()
            .map(|&(k, v)| PropertyInFinalState {
                key: k,
                value: if self.kv.contains(&(k, v)) { PropValue::Same } else { PropValue::Different(v) },
            })
            .collect()
    }
    fn is_empty(&self) -> bool {
        self.kv.is_empty()
    }
    fn len(&self) -> usize {
        self.kv.len()
    }
}

pub type Ty = SimpleTypes<u8, P, u32>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct N {
    pub parent: usize, // index of an earlier node; 0 for the root itself
    pub kind: u8,
    pub text: Option<u32>,
    pub kv: Vec<(u8, u8)>,
    pub opaque: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct TS {
    pub n: Vec<N>,
    pub junk: u8,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub a: TS,
    pub b: TS,
    pub hashm: u8,
    pub sim: u8,
    pub thr: f64,
    pub minh: usize,
    /// explicit matching (node indices) for the edit-script properties; None: use compute_matching
    pub pairs: Option<Vec<(usize, usize)>>,
    /// which tree implementations are used
    pub imp: u8,
}

impl TS {
    pub fn children(&self) -> Vec<Vec<usize>> {
        let mut c = vec![vec![]; self.n.len()];
        for i in 1..self.n.len() {
            c[self.n[i].parent].push(i);
        }
        c
    }
    pub fn preorder(&self) -> Vec<usize> {
        let c = self.children();
        let mut out = vec![];
        let mut st = vec![0];
        while let Some(x) = st.pop() {
            out.push(x);
            for &y in c[x].iter().rev() {
                st.push(y);
            }
        }
        out
    }
    /// the same tree, nodes renumbered in pre-order
    pub fn canonical(&self) -> TS {
        let po = self.preorder();
        let mut new = vec![0; po.len()];
        for (i, &x) in po.iter().enumerate() {
            new[x] = i;
        }
        TS {
            n: po
                .iter()
                .map(|&x| N { parent: new[self.n[x].parent], ..self.n[x].clone() })
                .collect(),
            junk: self.junk,
        }
    }
    pub fn depth(&self) -> Vec<usize> {
        let mut d = vec![0; self.n.len()];
        for i in 1..self.n.len() {
            d[i] = d[self.n[i].parent] + 1;
        }
        d
    }
    pub fn heights(&self) -> Vec<usize> {
        let mut h = vec![0; self.n.len()];
        for i in (1..self.n.len()).rev() {
            let p = self.n[i].parent;
            h[p] = h[p].max(h[i] + 1);
        }
        h
    }
    /// strictly inside an opaque node
    pub fn inside(&self) -> Vec<bool> {
        let mut d = vec![false; self.n.len()];
        for i in 1..self.n.len() {
            let p = self.n[i].parent;
            d[i] = d[p] || self.n[p].opaque;
        }
        d
    }
    pub fn positions(&self) -> Vec<usize> {
        let mut pos = vec![0; self.n.len()];
        for c in self.children() {
            for (i, x) in c.into_iter().enumerate() {
                pos[x] = i;
            }
        }
        pos
    }
}

/// Interned structural hashes, so that equal hashes mean equal subtrees (modes 0..=2).
pub struct Hasher {
    pub mode: u8,
    tab: HashMap<(u8, Option<u32>, Vec<(u8, u8)>, bool, Vec<u64>), u64>,
}
impl Hasher {
    pub fn new(mode: u8) -> Self {
        Hasher { mode, tab: HashMap::new() }
    }
    pub fn run(&mut self, t: &TS) -> Vec<u64> {
        let c = t.children();
        let mut h = vec![0u64; t.n.len()];
        for i in (0..t.n.len()).rev() {
            let ch: Vec<u64> = c[i].iter().map(|&j| h[j]).collect();
            let x = &t.n[i];
            let key = match self.mode {
                0 => (x.kind, x.text, x.kv.clone(), x.opaque, ch),
                1 => (x.kind, x.text, vec![], false, ch),
                2 => (x.kind, None, vec![], false, ch),
                _ => (x.kind % 2, None, vec![], false, vec![]),
            };
            let n = self.tab.len() as u64;
            let id = *self.tab.entry(key).or_insert(n);
            h[i] = if self.mode >= 3 { id % 2 } else { mix(id, 99) };
        }
        h
    }
}

pub struct Built {
    pub tree: Tree<Ty>,
    pub ids: Vec<NodeId>,
    pub back: HashMap<NodeId, usize>,
    pub opaque: HashSet<NodeId>,
}

fn data(h: u64, x: &N, sim: u8) -> NodeData<Ty> {
    NodeData {
        hash: NodeHash(h),
        kind: x.kind,
        properties: P { kv: x.kv.clone(), sim },
        text: x.text,
    }
}

pub fn build(t: &TS, hashes: &[u64], sim: u8) -> Built {
    let junk_node = || NodeData::<Ty> {
        hash: NodeHash(hashes[0]),
        kind: t.n[0].kind,
        properties: P { kv: vec![], sim },
        text: None,
    };
    let mut arena: Arena<NodeData<Ty>> = Arena::new();
    let mut dead = vec![];
    match t.junk {
        0 => {}
        1 => {
            // unrelated root with children stays in the arena
            let r = arena.new_node(junk_node());
            let c = arena.new_node(junk_node());
            r.append(c, &mut arena);
        }
        2 => {
            // recycled slots: ids carry non-zero stamps and are handed out in reverse
            let v: Vec<_> = (0..t.n.len() / 2 + 1).map(|_| arena.new_node(junk_node())).collect();
            for x in v {
                x.remove(&mut arena);
                dead.push(x);
            }
        }
        3 => {
            for _ in 0..67 {
                arena.new_node(junk_node());
            }
        }
        _ => {
            let v: Vec<_> = (0..9).map(|_| arena.new_node(junk_node())).collect();
            for (i, x) in v.into_iter().enumerate() {
                if i % 2 == 0 {
                    x.remove(&mut arena);
                }
            }
        }
    }
    let root = arena.new_node(data(hashes[0], &t.n[0], sim));
    let mut tree = Tree { arena, root };
    let mut ids = vec![root];
    for i in 1..t.n.len() {
        let p = ids[t.n[i].parent];
        ids.push(tree.add_child(p, data(hashes[i], &t.n[i], sim)));
        if t.junk == 4 && i % 3 == 0 {
            tree.arena.new_node(junk_node());
        }
    }
    let back = ids.iter().enumerate().map(|(i, &x)| (x, i)).collect();
    let opaque = t.n.iter().enumerate().filter(|(_, x)| x.opaque).map(|(i, _)| ids[i]).collect();
    Built { tree, ids, back, opaque }
}

/// Delegating tree with opacity, which notes queries about nodes that are not in the tree.
pub struct W<'a> {
    pub b: &'a Built,
    pub bad: Cell<Option<(&'static str, NodeId)>>,
}
impl<'a> W<'a> {
    pub fn new(b: &'a Built) -> Self {
        W { b, bad: Cell::new(None) }
    }
    fn chk(&self, what: &'static str, id: NodeId) {
        if !self.b.back.contains_key(&id) && self.bad.get().is_none() {
            self.bad.set(Some((what, id)));
        }
    }
}
/// The same, but leaving child_count and position to the trait's defaults.
pub struct WD<'a>(pub W<'a>);

macro_rules! common {
    ($s:ident, $w:expr) => {
        type Types = Ty;
        fn root(&self) -> NodeId {
            let $s = self;
            $w.b.tree.root
        }
        fn node_count(&self) -> usize {
            let $s = self;
            $w.b.ids.len()
        }
        fn hash(&self, id: NodeId) -> NodeHash {
            let $s = self;
            $w.chk("hash", id);
            DiffTree::hash(&$w.b.tree, id)
        }
        fn kind(&self, id: NodeId) -> &u8 {
            let $s = self;
            $w.chk("kind", id);
            DiffTree::kind(&$w.b.tree, id)
        }
        fn properties(&self, id: NodeId) -> &P {
            let $s = self;
            $w.chk("properties", id);
            DiffTree::properties(&$w.b.tree, id)
        }
        fn text(&self, id: NodeId) -> Option<&u32> {
            let $s = self;
            $w.chk("text", id);
            DiffTree::text(&$w.b.tree, id)
        }
        fn parent(&self, id: NodeId) -> Option<NodeId> {
            let $s = self;
            $w.chk("parent", id);
            DiffTree::parent(&$w.b.tree, id)
        }
        fn children(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
            let $s = self;
            $w.chk("children", id);
            DiffTree::children(&$w.b.tree, id)
        }
        fn height(&self, id: NodeId) -> usize {
            let $s = self;
            $w.chk("height", id);
            DiffTree::height(&$w.b.tree, id)
        }
        fn iter(&self) -> impl Iterator<Item = NodeId> + '_ {
            let $s = self;
            DiffTree::iter(&$w.b.tree)
        }
        fn post_order(&self) -> impl Iterator<Item = NodeId> + '_ {
            let $s = self;
            DiffTree::post_order(&$w.b.tree)
        }
        fn descendants(&self, id: NodeId) -> impl Iterator<Item = NodeId> + '_ {
            let $s = self;
            $w.chk("descendants", id);
            DiffTree::descendants(&$w.b.tree, id)
        }
        fn is_opaque(&self, id: NodeId) -> bool {
            let $s = self;
            $w.chk("is_opaque", id);
            $w.b.opaque.contains(&id)
        }
    };
}
impl DiffTree for W<'_> {
    common!(s, s);
    fn child_count(&self, id: NodeId) -> usize {
        self.chk("child_count", id);
        DiffTree::child_count(&self.b.tree, id)
    }
    fn position(&self, id: NodeId) -> usize {
        self.chk("position", id);
        DiffTree::position(&self.b.tree, id)
    }
}
impl DiffTree for WD<'_> {
    common!(s, s.0);
}

// ---------------------------------------------------------------- text form of cases

impl Case {
    pub fn print(&self) -> String {
        let mut s = String::new();
        let tree = |s: &mut String, name: &str, t: &TS| {
            let _ = writeln!(s, "tree {name} junk={} # node: parent kind text props opaque", t.junk);
            for (i, x) in t.n.iter().enumerate() {
                let _ = writeln!(
                    s,
                    "node {i} {} {} {} {} {}",
                    x.parent,
                    x.kind,
                    x.text.map(|t| t.to_string()).unwrap_or("-".into()),
                    if x.kv.is_empty() {
                        "-".into()
                    } else {
                        x.kv.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(",")
                    },
                    x.opaque as u8
                );
            }
        };
        let _ = writeln!(
            s,
            "config hash_mode={} sim_mode={} threshold_bits={} threshold={} min_height={} imp={}",
            self.hashm,
            self.sim,
            self.thr.to_bits(),
            self.thr,
            self.minh,
            self.imp
        );
        tree(&mut s, "A", &self.a);
        tree(&mut s, "B", &self.b);
        match &self.pairs {
            None => s.push_str("matching computed\n"),
            Some(p) => {
                s.push_str("matching given");
                for (a, b) in p {
                    let _ = write!(s, " {a}-{b}");
                }
                s.push('\n');
            }
        }
        s
    }
    pub fn parse(text: &str) -> Option<Case> {
        let mut c = Case { a: TS::default(), b: TS::default(), hashm: 0, sim: 0, thr: 0.5, minh: 1, pairs: None, imp: 0 };
        let mut cur = 'A';
        for line in text.lines() {
            let line = line.split('#').next().unwrap();
            let w: Vec<&str> = line.split_whitespace().collect();
            match w.first().copied() {
                Some("config") => {
                    for kv in &w[1..] {
                        let (k, v) = kv.split_once('=')?;
                        match k {
                            "hash_mode" => c.hashm = v.parse().ok()?,
                            "sim_mode" => c.sim = v.parse().ok()?,
                            "threshold_bits" => c.thr = f64::from_bits(v.parse().ok()?),
                            "min_height" => c.minh = v.parse().ok()?,
                            "imp" => c.imp = v.parse().ok()?,
                            _ => {}
                        }
                    }
                }
                Some("tree") => {
                    cur = w[1].chars().next()?;
                    let j = w[2].strip_prefix("junk=")?.parse().ok()?;
                    if cur == 'A' { c.a.junk = j } else { c.b.junk = j }
                }
                Some("node") => {
                    let n = N {
                        parent: w[2].parse().ok()?,
                        kind: w[3].parse().ok()?,
                        text: w[4].parse().ok(),
                        kv: if w[5] == "-" {
                            vec![]
                        } else {
                            w[5].split(',')
                                .map(|x| {
                                    let (k, v) = x.split_once(':').unwrap();
                                    (k.parse().unwrap(), v.parse().unwrap())
                                })
                                .collect()
                        },
                        opaque: w[6] == "1",
                    };
                    if cur == 'A' { c.a.n.push(n) } else { c.b.n.push(n) }
                }
                Some("matching") => {
                    if w[1] == "given" {
                        c.pairs = Some(
                            w[2..]
                                .iter()
                                .map(|x| {
                                    let (k, v) = x.split_once('-').unwrap();
                                    (k.parse().unwrap(), v.parse().unwrap())
                                })
                                .collect(),
                        )
                    }
                }
                _ => {}
            }
        }
        Some(c)
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct GenOpt {
    pub opaque: bool,
    /// text presence is a function of the kind
    pub text_by_kind: bool,
    pub faithful: bool,
    /// A and B identical
    pub same: bool,
    /// give an explicit matching
    pub matching: bool,
    /// restrict explicit matchings to those of C08
    pub valid: bool,
    pub roots_alike: bool,
}

fn gen_node(r: &mut Rng, kinds: usize, o: &GenOpt, op: bool, parent: usize, rich: usize) -> N {
    let kind = r.below(kinds) as u8;
    N {
        parent,
        kind,
        text: gen_text(r, kind, o),
        kv: gen_kv(r, rich),
        opaque: op && r.chance(1, 6),
    }
}
fn gen_text(r: &mut Rng, kind: u8, o: &GenOpt) -> Option<u32> {
    if o.text_by_kind {
        if kind % 2 == 1 { Some(r.below(3) as u32) } else { None }
    } else if r.chance(1, 2) {
        Some(r.below(3) as u32)
    } else {
        None
    }
}
fn gen_kv(r: &mut Rng, rich: usize) -> Vec<(u8, u8)> {
    let mut v = vec![];
    if rich > 0 {
        for k in 0..3u8 {
            if r.chance(1, 3) {
                v.push((k, r.below(2) as u8));
            }
        }
    }
    v
}

pub fn gen_tree(r: &mut Rng, n: usize, kinds: usize, o: &GenOpt, op: bool, rich: usize) -> TS {
    let shape = r.below(5);
    let root_op = op && r.chance(1, 4);
    let mut t = TS { n: vec![gen_node(r, kinds, o, root_op, 0, rich)], junk: 0 };
    for i in 1..n {
        let p = match shape {
            0 => r.below(i),
            1 => if r.chance(3, 4) { i - 1 } else { r.below(i) }, // deep
            2 => if r.chance(3, 4) { 0 } else { r.below(i) },     // wide
            3 => (i - 1) / 2,
            _ => i - 1 - r.below(i.min(3)),
        };
        t.n.push(gen_node(r, kinds, o, op, p, rich));
    }
    if r.chance(1, 3) {
        // duplicate subtrees: copy node attributes from an earlier node
        for _ in 0..n / 2 {
            let (i, j) = (r.below(n), r.below(n));
            let (k, tx, kv) = (t.n[j].kind, t.n[j].text, t.n[j].kv.clone());
            t.n[i].kind = k;
            t.n[i].text = tx;
            t.n[i].kv = kv;
        }
    }
    t.junk = if r.chance(1, 2) { 0 } else { r.below(5) as u8 };
    t
}

/// child-list form for structural edits
struct LT {
    n: Vec<N>,
    ch: Vec<Vec<usize>>,
}
impl LT {
    fn from(t: &TS) -> LT {
        LT { n: t.n.clone(), ch: t.children() }
    }
    fn parent(&self, x: usize) -> Option<(usize, usize)> {
        for (p, c) in self.ch.iter().enumerate() {
            if let Some(i) = c.iter().position(|&y| y == x) {
                return Some((p, i));
            }
        }
        None
    }
    fn under(&self, top: usize, x: usize) -> bool {
        top == x || self.ch[top].iter().any(|&c| self.under(c, x))
    }
    fn back(&self, junk: u8) -> TS {
        let mut out = TS { n: vec![], junk };
        let mut st = vec![(0usize, 0usize)];
        while let Some((x, p)) = st.pop() {
            let me = out.n.len();
            out.n.push(N { parent: p, ..self.n[x].clone() });
            for &c in self.ch[x].iter().rev() {
                st.push((c, me));
            }
        }
        out
    }
    fn reachable(&self) -> Vec<usize> {
        let mut o = vec![];
        let mut st = vec![0];
        while let Some(x) = st.pop() {
            o.push(x);
            st.extend(self.ch[x].iter().copied());
        }
        o
    }
}

pub fn mutate(r: &mut Rng, t: &TS, edits: usize, kinds: usize, o: &GenOpt, op: bool, rich: usize) -> TS {
    let mut l = LT::from(t);
    for _ in 0..edits {
        let nodes = l.reachable();
        let x = nodes[r.below(nodes.len())];
        match r.below(10) {
            0 => {
                // insert a leaf
                let n = gen_node(r, kinds, o, op, 0, rich);
                l.n.push(n);
                l.ch.push(vec![]);
                let id = l.n.len() - 1;
                let at = r.below(l.ch[x].len() + 1);
                l.ch[x].insert(at, id);
            }
            1 => {
                // delete a subtree
                if let Some((p, i)) = l.parent(x) {
                    l.ch[p].remove(i);
                }
            }
            2 => {
                // unwrap
                if let Some((p, i)) = l.parent(x) {
                    let c = std::mem::take(&mut l.ch[x]);
                    l.ch[p].splice(i..i + 1, c);
                }
            }
            3 => {
                // wrap
                if let Some((p, i)) = l.parent(x) {
                    let n = gen_node(r, kinds, o, op, 0, rich);
                    l.n.push(n);
                    l.ch.push(vec![x]);
                    let id = l.n.len() - 1;
                    l.ch[p][i] = id;
                }
            }
            4 | 5 => {
                // move
                let y = nodes[r.below(nodes.len())];
                if !l.under(x, y)
                    && let Some((p, i)) = l.parent(x)
                {
                    l.ch[p].remove(i);
                    let at = r.below(l.ch[y].len() + 1);
                    l.ch[y].insert(at, x);
                }
            }
            6 => {
                // swap two children
                let k = l.ch[x].len();
                if k > 1 {
                    let (i, j) = (r.below(k), r.below(k));
                    l.ch[x].swap(i, j);
                }
            }
            7 => l.n[x].text = gen_text(r, l.n[x].kind, o),
            8 => l.n[x].kv = gen_kv(r, rich),
            _ => {
                if op && r.chance(1, 2) {
                    l.n[x].opaque = !l.n[x].opaque;
                } else {
                    let k = r.below(kinds) as u8;
                    l.n[x].kind = k;
                    l.n[x].text = gen_text(r, k, o);
                }
            }
        }
    }
    l.back(if r.chance(1, 2) { 0 } else { r.below(5) as u8 })
}

pub fn gen_case(r: &mut Rng, size: usize, o: &GenOpt) -> Case {
    let kinds = 1 + r.below(4);
    let rich = r.below(2);
    let op = o.opaque && r.chance(1, 2);
    let n = 1 + r.below(size);
    let mut a = gen_tree(r, n, kinds, o, op, rich);
    let mut b;
    if o.same {
        b = a.canonical();
        if r.chance(1, 2) {
            b = a.clone();
        }
        b.junk = r.below(5) as u8;
    } else if r.chance(3, 5) {
        let emax = if r.chance(1, 3) { n } else { 4 };
        let e = r.below(1 + emax);
        b = mutate(r, &a, e, kinds, o, op, rich);
        if op && !r.chance(1, 3) {
            // keep opacity mostly aligned is what mutate already does
        }
    } else {
        let m = 1 + r.below(size);
        b = gen_tree(r, m, kinds, o, op, rich);
    }
    if o.roots_alike {
        b.n[0].kind = a.n[0].kind;
        b.n[0].text = if a.n[0].text.is_some() && r.chance(1, 2) { Some(r.below(3) as u32) } else { a.n[0].text };
        if r.chance(4, 5) {
            b.n[0].kv = a.n[0].kv.clone();
        }
    }
    if r.chance(1, 12) && !o.same {
        std::mem::swap(&mut a, &mut b);
    }
    let hashm = if o.faithful || r.chance(3, 4) { r.below(3) as u8 } else { 3 };
    let sim = r.below(5) as u8;
    let thr = if r.chance(1, 2) {
        0.5
    } else {
        r.pick(&[0.0, 0.3, 0.4, 0.6, 0.7, 0.8, 1.0, -1.0, 2.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY])
    };
    let minh = if r.chance(1, 2) { r.below(2) } else { r.pick(&[0, 1, 2, 3, 4, 9, usize::MAX]) };
    let mut c = Case { a, b, hashm, sim, thr, minh, pairs: None, imp: r.below(4) as u8 };
    if o.matching {
        c.pairs = Some(gen_pairs(r, &c, o));
    }
    c
}

pub fn gen_pairs(r: &mut Rng, c: &Case, o: &GenOpt) -> Vec<(usize, usize)> {
    let (ia, ib) = (c.a.inside(), c.b.inside());
    let ok = |x: usize, y: usize| {
        !o.valid
            || (c.a.n[x].kind == c.b.n[y].kind
                && c.a.n[x].text.is_some() == c.b.n[y].text.is_some()
                && ia[x] == ib[y])
    };
    let mut used = vec![false; c.b.n.len()];
    let mut pairs = vec![];
    let dens = r.below(5);
    let local = r.chance(2, 3); // prefer the same index, then anything
    if o.valid || r.chance(4, 5) {
        pairs.push((0, 0));
        used[0] = true;
    }
    for x in 0..c.a.n.len() {
        if pairs.iter().any(|p| p.0 == x) || (o.valid && x == 0) || r.below(4) >= dens {
            continue;
        }
        let mut y = if local && x < c.b.n.len() && r.chance(3, 4) { x } else { r.below(c.b.n.len()) };
        for _ in 0..4 {
            if !used[y] && ok(x, y) {
                used[y] = true;
                pairs.push((x, y));
                break;
            }
            y = r.below(c.b.n.len());
        }
    }
    // arbitrary pair order
    for i in (1..pairs.len()).rev() {
        let j = r.below(i + 1);
        if r.chance(1, 2) {
            pairs.swap(i, j);
        }
    }
    pairs
}

/// every ordered tree with exactly n nodes, as parent lists in pre-order
pub fn shapes(n: usize) -> Vec<Vec<usize>> {
    fn rec(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        // the next node in pre-order may hang below any node on the rightmost path
        let mut p = cur.len() - 1;
        loop {
            cur.push(p);
            rec(n, cur, out);
            cur.pop();
            if p == 0 {
                break;
            }
            p = cur[p];
        }
    }
    let mut out = vec![];
    rec(n, &mut vec![0], &mut out);
    out
}
