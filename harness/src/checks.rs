//! The contracts, executable.
use crate::model::*;
use cinereus::indextree::{Arena, NodeId};
use cinereus::*;
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Upd(usize, usize, Vec<(u8, Option<u8>)>),
    Text(usize, usize, u32),
    Ins { b: usize, parent: usize, pos: usize, kind: u8 },
    Mov { a: usize, b: usize, parent: usize, pos: usize },
    Del(usize),
}

/// what was observed
pub struct Obs {
    pub pairs: Vec<(usize, usize)>,
    pub a2b: Vec<Option<usize>>,
    pub b2a: Vec<Option<usize>>,
    pub ops: Vec<Op>,
    pub bad: Option<String>,
    pub hash_a: Vec<u64>,
    pub hash_b: Vec<u64>,
}

fn to_ops(ops: &[EditOp<Ty>], a: &Built, b: &Built) -> Result<Vec<Op>, String> {
    let fa = |x: &NodeId| a.back.get(x).copied().ok_or_else(|| format!("operation names {x:?}, which is not a node of the old tree"));
    let fb = |x: &NodeId| b.back.get(x).copied().ok_or_else(|| format!("operation names {x:?}, which is not a node of the new tree"));
    ops.iter()
        .map(|o| {
            Ok(match o {
                EditOp::UpdateProperties { node_a, node_b, changes } => Op::Upd(
                    fa(node_a)?,
                    fb(node_b)?,
                    changes
                        .iter()
                        .map(|c| {
                            (c.key, match &c.value {
                                PropValue::Same => None,
                                PropValue::Different(v) => Some(*v),
                            })
                        })
                        .collect(),
                ),
                EditOp::SetText { node_a, node_b, text } => Op::Text(fa(node_a)?, fb(node_b)?, *text),
                EditOp::Insert { node_b, parent_b, position, kind } => {
                    Op::Ins { b: fb(node_b)?, parent: fb(parent_b)?, pos: *position, kind: *kind }
                }
                EditOp::Move { node_a, node_b, new_parent_b, new_position } => {
                    Op::Mov { a: fa(node_a)?, b: fb(node_b)?, parent: fb(new_parent_b)?, pos: *new_position }
                }
                EditOp::Delete { node_a } => Op::Del(fa(node_a)?),
            })
        })
        .collect()
}

fn go<TA: DiffTree<Types = Ty>, TB: DiffTree<Types = Ty>>(
    ta: &TA,
    tb: &TB,
    c: &Case,
    a: &Built,
    b: &Built,
    script: bool,
) -> (Matching, Vec<EditOp<Ty>>) {
    let m = match &c.pairs {
        Some(p) => {
            let mut m = if c.imp % 2 == 0 { Matching::new() } else { Matching::with_capacity(3, 2) };
            for &(x, y) in p {
                m.add(a.ids[x], b.ids[y]);
            }
            m
        }
        None => compute_matching(ta, tb, &MatchingConfig { similarity_threshold: c.thr, min_height: c.minh }),
    };
    let ops = if script { generate_edit_script(ta, tb, &m) } else { vec![] };
    (m, ops)
}

/// runs the code under test; the matching is checked for internal consistency on the way (C01)
pub fn observe(c: &Case, script: bool, strict: bool, via_diff: bool) -> Result<Obs, String> {
    let mut h = Hasher::new(c.hashm);
    let (ha, hb) = (h.run(&c.a), h.run(&c.b));
    let (a, b) = (build(&c.a, &ha, c.sim), build(&c.b, &hb, c.sim));
    let any_opaque = !a.opaque.is_empty() || !b.opaque.is_empty();
    let (wa, wb) = (W::new(&a), W::new(&b));
    let (m, ops, bad);
    if via_diff {
        let cfg = MatchingConfig { similarity_threshold: c.thr, min_height: c.minh };
        let (o, mm) = if any_opaque || c.imp != 3 {
            let r = diff_trees_with_matching(&wa, &wb, &cfg);
            let o2 = diff_trees(&wa, &wb, &cfg);
            if o2 != r.0 {
                return Err("diff_trees and diff_trees_with_matching disagree on the edit script".into());
            }
            r
        } else {
            diff_trees_with_matching(&a.tree, &b.tree, &cfg)
        };
        (m, ops) = (mm, o);
        bad = wa.bad.get().or(wb.bad.get());
    } else {
        match c.imp {
            1 => {
                let w = WD(wa);
                (m, ops) = go(&w, &wb, c, &a, &b, script);
                bad = w.0.bad.get().or(wb.bad.get());
            }
            2 => {
                let w = WD(wb);
                (m, ops) = go(&wa, &w, c, &a, &b, script);
                bad = wa.bad.get().or(w.0.bad.get());
            }
            3 if !any_opaque => {
                (m, ops) = go(&a.tree, &b.tree, c, &a, &b, script);
                bad = None;
            }
            _ => {
                (m, ops) = go(&wa, &wb, c, &a, &b, script);
                bad = wa.bad.get().or(wb.bad.get());
            }
        }
    }
    let mut pairs = vec![];
    for (x, y) in m.pairs() {
        match (a.back.get(&x), b.back.get(&y)) {
            (Some(&i), Some(&j)) => pairs.push((i, j)),
            _ => return Err(format!("pair ({x:?}, {y:?}) names a node outside the trees")),
        }
    }
    let mut a2b = vec![None; a.ids.len()];
    let mut b2a = vec![None; b.ids.len()];
    for (i, &x) in a.ids.iter().enumerate() {
        if let Some(y) = m.get_b(x) {
            a2b[i] = Some(*b.back.get(&y).ok_or(format!("partner {y:?} of old node {i} is not in the new tree"))?);
        }
        if strict && m.contains_a(x) != a2b[i].is_some() {
            return Err(format!("membership and lookup disagree for old node {i}"));
        }
    }
    for (j, &y) in b.ids.iter().enumerate() {
        if let Some(x) = m.get_a(y) {
            b2a[j] = Some(*a.back.get(&x).ok_or(format!("partner {x:?} of new node {j} is not in the old tree"))?);
        }
        if strict && m.contains_b(y) != b2a[j].is_some() {
            return Err(format!("membership and lookup disagree for new node {j}"));
        }
    }
    if strict {
        if m.len() != pairs.len() || m.is_empty() != pairs.is_empty() {
            return Err("length of the matching differs from its list of pairs".into());
        }
        let mut sa = HashSet::new();
        let mut sb = HashSet::new();
        for &(i, j) in &pairs {
            if !sa.insert(i) {
                return Err(format!("old node {i} is paired twice"));
            }
            if !sb.insert(j) {
                return Err(format!("new node {j} is paired twice"));
            }
            if a2b[i] != Some(j) || b2a[j] != Some(i) {
                return Err(format!("pair ({i},{j}) is not what the lookups say ({:?}, {:?})", a2b[i], b2a[j]));
            }
        }
        for i in 0..a2b.len() {
            if a2b[i].is_some() && !sa.contains(&i) {
                return Err(format!("old node {i} has a partner that is missing from the pair list"));
            }
        }
        for j in 0..b2a.len() {
            if b2a[j].is_some() && !sb.contains(&j) {
                return Err(format!("new node {j} has a partner that is missing from the pair list"));
            }
        }
    }
    let ops = to_ops(&ops, &a, &b)?;
    let bad = bad.map(|(w, id)| format!("{w} was asked about {id:?}, which is not in the tree"));
    Ok(Obs { pairs, a2b, b2a, ops, bad, hash_a: ha, hash_b: hb })
}

fn nontrivial(o: &Obs, c: &Case) -> bool {
    c.a.n.len() > 1 && c.b.n.len() > 1 && !o.pairs.is_empty()
}

pub fn check(prop: &str, c: &Case) -> Result<bool, String> {
    match prop {
        "C01" => observe(c, false, true, false).map(|o| nontrivial(&o, c)),
        "C02" | "C03" => {
            if c.hashm >= 3 || c.pairs.is_some() {
                return Ok(false);
            }
            let o = observe(c, false, false, false)?;
            let sims = |i: usize, j: usize| {
                P { kv: c.a.n[i].kv.clone(), sim: c.sim }.similarity(&P { kv: c.b.n[j].kv.clone(), sim: c.sim })
            };
            for &(i, j) in &o.pairs {
                if prop == "C02" && c.a.n[i].kind != c.b.n[j].kind {
                    return Err(format!("old node {i} (kind {}) is paired with new node {j} (kind {})", c.a.n[i].kind, c.b.n[j].kind));
                }
                if prop == "C03"
                    && o.hash_a[i] != o.hash_b[j]
                    && !c.a.n[i].opaque
                    && !c.b.n[j].opaque
                    && sims(i, j) < c.thr
                {
                    return Err(format!("old node {i} and new node {j} are paired with similarity {} below the threshold {}", sims(i, j), c.thr));
                }
            }
            Ok(nontrivial(&o, c))
        }
        "C04" | "C05" | "C06" | "C07" | "C10" => {
            let o = observe(c, true, false, false)?;
            if prop == "C10" {
                opaque(c, &o)?;
            } else {
                script(prop, c, &o)?;
            }
            Ok(nontrivial(&o, c) && (!o.ops.is_empty() || prop == "C10"))
        }
        "C08" => {
            let p = c.pairs.as_ref();
            let o = observe(c, true, false, false)?;
            let (ia, ib) = (c.a.inside(), c.b.inside());
            let pairs = p.unwrap_or(&o.pairs);
            let valid = pairs.contains(&(0, 0))
                && pairs.iter().all(|&(i, j)| {
                    c.a.n[i].kind == c.b.n[j].kind
                        && c.a.n[i].text.is_some() == c.b.n[j].text.is_some()
                        && ia[i] == ib[j]
                });
            if !valid {
                return Ok(false);
            }
            replay(c, &o)?;
            Ok(nontrivial(&o, c) && !o.ops.is_empty())
        }
        "C09" => {
            let (a, b) = (c.a.canonical(), c.b.canonical());
            if a.n != b.n || c.hashm >= 3 || c.pairs.is_some() || a.heights()[0] < c.minh {
                return Ok(false);
            }
            let o = observe(c, true, false, false)?;
            let (pa, pb) = (c.a.preorder(), c.b.preorder());
            let inside = c.a.inside();
            for k in 0..pa.len() {
                if !inside[pa[k]] && o.a2b[pa[k]] != Some(pb[k]) {
                    return Err(format!("node {} of the old tree is paired with {:?}, its counterpart is {}", pa[k], o.a2b[pa[k]], pb[k]));
                }
            }
            if !o.ops.is_empty() {
                return Err(format!("edit script for identical trees is not empty: {:?}", o.ops));
            }
            Ok(pa.len() > 1)
        }
        "C11" => {
            if c.pairs.is_some() {
                return Ok(false);
            }
            let o = observe(c, true, false, false)?;
            if let Some(b) = &o.bad {
                return Err(b.clone());
            }
            Ok(nontrivial(&o, c))
        }
        "C14" => {
            if c.a.n[0].kind != c.b.n[0].kind || c.pairs.is_some() || c.hashm >= 3 {
                return Ok(false);
            }
            let s = P { kv: c.a.n[0].kv.clone(), sim: c.sim }.similarity(&P { kv: c.b.n[0].kv.clone(), sim: c.sim });
            if !(s >= c.thr) {
                return Ok(false);
            }
            let o = observe(c, true, false, true)?;
            if o.a2b[0] != Some(0) || o.b2a[0] != Some(0) {
                return Err(format!("roots of the same kind (similarity {s}) are not paired: old root with {:?}, new root with {:?}", o.a2b[0], o.b2a[0]));
            }
            for op in &o.ops {
                if matches!(op, Op::Del(0) | Op::Ins { b: 0, .. } | Op::Mov { a: 0, .. } | Op::Mov { b: 0, .. }) {
                    return Err(format!("the script edits a root: {op:?}"));
                }
            }
            let text_ok = c.a.n.iter().all(|x| c.b.n.iter().all(|y| x.kind != y.kind || x.text.is_some() == y.text.is_some()));
            if text_ok && !c.a.n.iter().chain(c.b.n.iter()).any(|x| x.opaque) {
                replay(c, &o)?;
                return Ok(nontrivial(&o, c));
            }
            Ok(false)
        }
        p => panic!("no executable contract for {p}"),
    }
}

/// C04..C07 on one script
fn script(prop: &str, c: &Case, o: &Obs) -> Result<(), String> {
    let (ia, ib) = (c.a.inside(), c.b.inside());
    let (pa, pb) = (c.a.positions(), c.b.positions());
    match prop {
        "C04" => {
            let mut ins: HashMap<usize, Vec<(usize, usize, u8)>> = HashMap::new();
            let mut del: HashMap<usize, usize> = HashMap::new();
            for op in &o.ops {
                match op {
                    Op::Ins { b, parent, pos, kind } => ins.entry(*b).or_default().push((*parent, *pos, *kind)),
                    Op::Del(a) => *del.entry(*a).or_default() += 1,
                    _ => {}
                }
            }
            for j in 0..c.b.n.len() {
                let want = j != 0 && o.b2a[j].is_none() && !ib[j];
                let got = ins.remove(&j).unwrap_or_default();
                let exp = if want { vec![(c.b.n[j].parent, pb[j], c.b.n[j].kind)] } else { vec![] };
                if got != exp {
                    return Err(format!("insertions of new node {j} (parent, position, kind): {got:?}, expected {exp:?}"));
                }
            }
            for i in 0..c.a.n.len() {
                let want = (o.a2b[i].is_none() && !ia[i]) as usize;
                let got = del.remove(&i).unwrap_or(0);
                if got != want {
                    return Err(format!("old node {i} is deleted {got} times, expected {want}"));
                }
            }
        }
        "C05" => {
            let mut mov: HashMap<(usize, usize), Vec<(usize, usize)>> = HashMap::new();
            for op in &o.ops {
                if let Op::Mov { a, b, parent, pos } = op {
                    mov.entry((*a, *b)).or_default().push((*parent, *pos));
                }
            }
            for &(i, j) in &o.pairs {
                let want = i != 0
                    && j != 0
                    && !ia[i]
                    && !ib[j]
                    && (o.a2b[c.a.n[i].parent] != Some(c.b.n[j].parent) || pa[i] != pb[j]);
                let got = mov.remove(&(i, j)).unwrap_or_default();
                let exp = if want { vec![(c.b.n[j].parent, pb[j])] } else { vec![] };
                if got != exp {
                    return Err(format!("moves of pair ({i},{j}) to (parent, position): {got:?}, expected {exp:?}"));
                }
            }
            if let Some(x) = mov.keys().next() {
                return Err(format!("move of {x:?}, which is not a matched pair"));
            }
        }
        "C06" => {
            let mut txt: HashMap<(usize, usize), Vec<u32>> = HashMap::new();
            let mut upd: HashMap<(usize, usize), Vec<Vec<(u8, Option<u8>)>>> = HashMap::new();
            for op in &o.ops {
                match op {
                    Op::Text(a, b, t) => txt.entry((*a, *b)).or_default().push(*t),
                    Op::Upd(a, b, ch) => upd.entry((*a, *b)).or_default().push(ch.clone()),
                    _ => {}
                }
            }
            for &(i, j) in &o.pairs {
                let out = !ia[i] && !ib[j];
                let (x, y) = (&c.a.n[i], &c.b.n[j]);
                let exp: Vec<u32> = match y.text {
                    Some(t) if out && x.text != y.text => vec![t],
                    _ => vec![],
                };
                let got = txt.remove(&(i, j)).unwrap_or_default();
                if got != exp {
                    return Err(format!("texts set on pair ({i},{j}): {got:?}, expected {exp:?}"));
                }
                let exp: Vec<Vec<(u8, Option<u8>)>> = if out && x.kv != y.kv {
                    vec![y.kv.iter().map(|&(k, v)| (k, if x.kv.contains(&(k, v)) { None } else { Some(v) })).collect()]
                } else {
                    vec![]
                };
                let got = upd.remove(&(i, j)).unwrap_or_default();
                if got != exp {
                    return Err(format!("property updates of pair ({i},{j}): {got:?}, expected {exp:?}"));
                }
            }
            if let Some(x) = txt.keys().chain(upd.keys()).next() {
                return Err(format!("update of {x:?}, which is not a matched pair"));
            }
        }
        _ => {
            let class = |op: &Op| match op {
                Op::Upd(..) | Op::Text(..) => 0,
                Op::Ins { .. } => 1,
                Op::Mov { .. } => 2,
                Op::Del(_) => 3,
            };
            let mut ins = HashMap::new();
            let mut del = HashMap::new();
            let mut mov = HashMap::new();
            for (k, op) in o.ops.iter().enumerate() {
                if k > 0 && class(&o.ops[k - 1]) > class(op) {
                    return Err(format!("{op:?} comes after {:?}", o.ops[k - 1]));
                }
                match op {
                    Op::Ins { b, .. } => {
                        ins.insert(*b, k);
                    }
                    Op::Del(a) => {
                        del.insert(*a, k);
                    }
                    Op::Mov { b, .. } => {
                        mov.insert(*b, k);
                    }
                    _ => {}
                }
            }
            for (&b, &k) in &mov {
                let mut up = b;
                while up != 0 {
                    up = c.b.n[up].parent;
                    if mov.get(&up).is_some_and(|&p| p > k) {
                        return Err(format!("the node paired with new node {b} moves before the one paired with its new ancestor {up}"));
                    }
                }
            }
            for (&b, &k) in &ins {
                if b != 0 && ins.get(&c.b.n[b].parent).is_some_and(|&p| p > k) {
                    return Err(format!("new node {b} is inserted before its parent {}", c.b.n[b].parent));
                }
            }
            for (&a, &k) in &del {
                if a != 0 && del.get(&c.a.n[a].parent).is_some_and(|&p| p < k) {
                    return Err(format!("old node {a} is deleted after its parent {}", c.a.n[a].parent));
                }
            }
        }
    }
    Ok(())
}

fn opaque(c: &Case, o: &Obs) -> Result<(), String> {
    let (ia, ib) = (c.a.inside(), c.b.inside());
    for op in &o.ops {
        let hit = match op {
            Op::Upd(a, b, _) | Op::Text(a, b, _) | Op::Mov { a, b, .. } => ia[*a] || ib[*b],
            Op::Ins { b, .. } => ib[*b],
            Op::Del(a) => ia[*a],
        };
        if hit {
            return Err(format!("{op:?} touches a node inside an opaque node"));
        }
    }
    if c.pairs.is_none() {
        for &(i, j) in &o.pairs {
            if ia[i] {
                return Err(format!("old node {i}, inside an opaque node, is paired with new node {j}"));
            }
            if ib[j] && (i == 0 || o.a2b[c.a.n[i].parent] != Some(c.b.n[j].parent)) {
                return Err(format!("new node {j}, inside an opaque node, is paired with old node {i} although their parents are not paired"));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum Key {
    Old(usize),
    New(usize),
}
#[derive(Clone, PartialEq, Debug)]
struct St {
    place: Option<(Key, usize)>,
    kind: u8,
    text: Option<u32>,
    kv: Vec<(u8, u8)>,
}

/// C08: the script as placement edits
fn replay(c: &Case, o: &Obs) -> Result<(), String> {
    let (ia, ib) = (c.a.inside(), c.b.inside());
    let (pa, pb) = (c.a.positions(), c.b.positions());
    let img = |j: usize| o.b2a[j].map(Key::Old).unwrap_or(Key::New(j));
    let mut st: HashMap<Key, St> = HashMap::new();
    for (i, x) in c.a.n.iter().enumerate() {
        if !ia[i] {
            st.insert(
                Key::Old(i),
                St { place: if i == 0 { None } else { Some((Key::Old(x.parent), pa[i])) }, kind: x.kind, text: x.text, kv: x.kv.clone() },
            );
        }
    }
    for op in &o.ops {
        let gone = |k: Key| format!("{op:?} refers to {k:?}, which does not exist at that point");
        match op {
            Op::Upd(a, _, ch) => {
                let s = st.get_mut(&Key::Old(*a)).ok_or(gone(Key::Old(*a)))?;
                let old = s.kv.clone();
                s.kv = ch
                    .iter()
                    .filter_map(|&(k, v)| match v {
                        Some(v) => Some((k, v)),
                        None => old.iter().find(|x| x.0 == k).copied(),
                    })
                    .collect();
            }
            Op::Text(a, _, t) => st.get_mut(&Key::Old(*a)).ok_or(gone(Key::Old(*a)))?.text = Some(*t),
            Op::Ins { b, parent, pos, kind } => {
                let p = img(*parent);
                if !st.contains_key(&p) {
                    return Err(gone(p));
                }
                st.insert(
                    Key::New(*b),
                    St { place: Some((p, *pos)), kind: *kind, text: c.b.n[*b].text, kv: c.b.n[*b].kv.clone() },
                );
            }
            Op::Mov { a, parent, pos, .. } => {
                let p = img(*parent);
                if !st.contains_key(&p) {
                    return Err(gone(p));
                }
                st.get_mut(&Key::Old(*a)).ok_or(gone(Key::Old(*a)))?.place = Some((p, *pos));
            }
            Op::Del(a) => {
                st.remove(&Key::Old(*a)).ok_or(gone(Key::Old(*a)))?;
            }
        }
    }
    let mut want: HashMap<Key, St> = HashMap::new();
    for (j, y) in c.b.n.iter().enumerate() {
        if !ib[j] {
            want.insert(
                img(j),
                St { place: if j == 0 { None } else { Some((img(y.parent), pb[j])) }, kind: y.kind, text: y.text, kv: y.kv.clone() },
            );
        }
    }
    if st != want {
        let mut d: Vec<String> = vec![];
        let keys: HashSet<Key> = st.keys().chain(want.keys()).copied().collect();
        let mut keys: Vec<Key> = keys.into_iter().collect();
        keys.sort();
        for k in keys {
            if st.get(&k) != want.get(&k) {
                d.push(format!("{k:?}: replay gives {:?}, the new tree has {:?}", st.get(&k), want.get(&k)));
            }
        }
        return Err(d.join("; "));
    }
    Ok(())
}

/// Matching used directly: fresh pairs in any order, any ids, with queries in between.
pub fn matching_api(seed: u64, seconds: f64) -> Result<u64, (String, String)> {
    let mut r = Rng(mix(seed, 77));
    let n = if seconds > 100.0 { 6000 } else { 1500 };
    for k in 0..n {
        let size = match k % 50 { 0 => 70_000, 1..=5 => 3000, 6..=10 => 300, _ => 12 };
        let cap = if r.chance(1, 3) { None } else { Some((r.below(size + 2), r.below(size + 2))) };
        let adds = r.below(if size > 1000 { 200 } else { size });
        let spec = format!("{} {} {} {} {}", r.next(), size, adds, cap.map_or(-1, |c| c.0 as i64), cap.map_or(-1, |c| c.1 as i64));
        if let Err(m) = matching_api_replay(&spec) {
            return Err((m, spec));
        }
    }
    Ok(n)
}

pub fn matching_api_replay(spec: &str) -> Result<(), String> {
    let w: Vec<i128> = spec.split_whitespace().map(|x| x.parse().unwrap()).collect();
    let (mut r, size, adds) = (Rng(w[0] as u64), w[1] as usize, w[2] as usize);
    let mut arena: Arena<()> = Arena::new();
    let ids: Vec<NodeId> = (0..size).map(|_| arena.new_node(())).collect();
    let mut m = if w[3] < 0 { Matching::new() } else { Matching::with_capacity(w[3] as usize, w[4] as usize) };
    let mut f: HashMap<NodeId, NodeId> = HashMap::new();
    let mut g: HashMap<NodeId, NodeId> = HashMap::new();
    let mut list = vec![];
    let verify = |m: &Matching, f: &HashMap<NodeId, NodeId>, g: &HashMap<NodeId, NodeId>, list: &[(NodeId, NodeId)], probe: &[NodeId]| -> Result<(), String> {
        if m.len() != list.len() || m.is_empty() != list.is_empty() {
            return Err(format!("length {} after {} additions", m.len(), list.len()));
        }
        if m.pairs().collect::<Vec<_>>() != list {
            return Err("pair list is not the list of added pairs".into());
        }
        for &x in probe {
            if m.get_b(x) != f.get(&x).copied() || m.contains_a(x) != f.contains_key(&x) {
                return Err(format!("forward lookup of {x}: {:?}, expected {:?}", m.get_b(x), f.get(&x)));
            }
            if m.get_a(x) != g.get(&x).copied() || m.contains_b(x) != g.contains_key(&x) {
                return Err(format!("backward lookup of {x}: {:?}, expected {:?}", m.get_a(x), g.get(&x)));
            }
        }
        Ok(())
    };
    verify(&m, &f, &g, &list, &ids)?;
    for k in 0..adds {
        let (x, y) = (ids[r.below(size)], ids[r.below(size)]);
        if f.contains_key(&x) || g.contains_key(&y) {
            continue;
        }
        m.add(x, y);
        f.insert(x, y);
        g.insert(y, x);
        list.push((x, y));
        if size <= 300 || k % 50 == 0 {
            verify(&m, &f, &g, &list, &ids)?;
        }
    }
    verify(&m, &f, &g, &list, &ids)
}

/// a fixed number of large inputs (long sibling lists, deep chains, many nodes)
pub fn large(prop: &str, r: &mut Rng, os: &[GenOpt]) -> Vec<Case> {
    let mut out = vec![];
    for (k, shape) in [(300usize, 0u8), (700, 1), (260, 2), (1500, 0), (400, 3), (40, 4), (600, 5)].into_iter() {
        let o = os[r.below(os.len())];
        let mut c = gen_case(r, 3, &o);
        let leaf = |r: &mut Rng, p: usize, o: &GenOpt| {
            let kind = if shape == 4 { 0 } else { r.below(3) as u8 };
            N {
                parent: p,
                kind,
                text: if o.text_by_kind { if kind % 2 == 1 { Some(r.below(3) as u32) } else { None } } else { None },
                kv: vec![],
                opaque: false,
            }
        };
        let mut t = TS { n: vec![c.a.n[0].clone()], junk: 0 };
        t.n[0].opaque = false;
        for i in 1..k {
            let p = match shape {
                0 => 0,
                1 => i - 1,
                2 => i / 7,
                3 => if i < 20 { i - 1 } else { 19 },
                4 => 0,
                _ => if i % 2 == 0 { 0 } else { i - 1 },
            };
            let n = leaf(r, p.min(i - 1), &o);
            t.n.push(n);
        }
        c.a = t.clone();
        c.b = if o.same { t.clone() } else { mutate(r, &t, 6, 3, &o, false, 0) };
        c.b.junk = 0;
        if o.roots_alike {
            c.b.n[0] = N { parent: 0, ..c.a.n[0].clone() };
        }
        if shape == 0 || shape == 2 || shape == 3 {
            c.minh = 0;
        }
        c.pairs = None;
        if o.matching {
            c.pairs = Some(gen_pairs(r, &c, &o));
        }
        if prop == "C03" || prop == "C02" {
            c.sim = 1;
        }
        // the candidate work list pairs up all same-kind siblings: keep quadratic cases modest
        out.push(c);
    }
    out
}
