//! C12: Tree built by add_child against a plain model.
use crate::model::*;
use cinereus::indextree::NodeId;
use cinereus::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn verify_one<T: DiffTree<Types = Ty>>(what: &str, t: &T, b: &Built, s: &TS) -> Result<(), String> {
    let ch = s.children();
    let pos = s.positions();
    let h = s.heights();
    let ids = &b.ids;
    let ix = |x: NodeId| b.back.get(&x).copied();
    let list = |v: Vec<NodeId>| v.into_iter().map(ix).collect::<Vec<_>>();
    if ix(t.root()) != Some(0) {
        return Err(format!("{what}: wrong root"));
    }
    for i in 0..s.n.len() {
        let x = ids[i];
        let par = if i == 0 { None } else { Some(s.n[i].parent) };
        if t.parent(x).map(ix) != par.map(Some) {
            return Err(format!("{what}: parent of node {i} is {:?}, expected {par:?}", t.parent(x)));
        }
        let want: Vec<_> = ch[i].iter().map(|&c| Some(c)).collect();
        if list(t.children(x).collect()) != want {
            return Err(format!("{what}: children of node {i} are {:?}, expected {want:?}", list(t.children(x).collect())));
        }
        if t.child_count(x) != ch[i].len() {
            return Err(format!("{what}: child count of node {i} is {}, expected {}", t.child_count(x), ch[i].len()));
        }
        if t.position(x) != pos[i] {
            return Err(format!("{what}: position of node {i} is {}, expected {}", t.position(x), pos[i]));
        }
        if t.height(x) != h[i] {
            return Err(format!("{what}: height of node {i} is {}, expected {}", t.height(x), h[i]));
        }
        if *t.kind(x) != s.n[i].kind || t.text(x).copied() != s.n[i].text || t.properties(x).kv != s.n[i].kv {
            return Err(format!("{what}: data of node {i} changed"));
        }
        // descendants: the subtree, itself first, parents before children, nothing twice
        let d = list(t.descendants(x).collect());
        let mut want = vec![];
        let mut st = vec![i];
        while let Some(y) = st.pop() {
            want.push(Some(y));
            st.extend(ch[y].iter().rev());
        }
        check_order(&format!("{what}: descendants of node {i}"), &d, &want, s, i, true)?;
    }
    let all: Vec<_> = s.preorder().into_iter().map(Some).collect();
    check_order(&format!("{what}: pre-order"), &list(t.iter().collect()), &all, s, 0, true)?;
    let post = list(t.post_order().collect());
    check_order(&format!("{what}: post-order"), &post, &all, s, 0, false)?;
    // stopping a traversal early and starting another gives the same prefix
    let k = post.len() / 2;
    if list(t.post_order().take(k).collect()) != post[..k] {
        return Err(format!("{what}: a second post-order traversal differs"));
    }
    Ok(())
}

fn check_order(what: &str, got: &[Option<usize>], want_set: &[Option<usize>], s: &TS, top: usize, pre: bool) -> Result<(), String> {
    let mut a = got.to_vec();
    let mut b = want_set.to_vec();
    a.sort();
    b.sort();
    if a != b {
        return Err(format!("{what} yields {got:?}, not each node of {want_set:?} exactly once"));
    }
    let mut at = vec![usize::MAX; s.n.len()];
    for (k, x) in got.iter().enumerate() {
        at[x.unwrap()] = k;
    }
    for x in got.iter().map(|x| x.unwrap()) {
        if x != top {
            let p = s.n[x].parent;
            if (pre && at[p] > at[x]) || (!pre && at[p] < at[x]) {
                return Err(format!("{what} yields {got:?}: node {x} on the wrong side of its parent {p}"));
            }
        }
    }
    if !pre {
        for c in s.children() {
            for w in c.windows(2) {
                if at[w[0]] > at[w[1]] {
                    return Err(format!("{what} yields {got:?}: siblings {} and {} out of order", w[0], w[1]));
                }
            }
        }
    }
    Ok(())
}

pub fn check_tree(s: &TS, every: bool) -> Result<(), String> {
    let mut h = Hasher::new(0);
    let ha = h.run(s);
    let start = if every { 1 } else { s.n.len() };
    for k in start..=s.n.len() {
        let p = TS { n: s.n[..k].to_vec(), junk: s.junk };
        let b = build(&p, &ha, 0);
        verify_one("tree", &b.tree, &b, &p)?;
        let t = &b.tree;
        for &x in &b.ids {
            // inherent methods against the trait ones
            if t.children(x).collect::<Vec<_>>() != DiffTree::children(t, x).collect::<Vec<_>>()
                || t.parent(x) != DiffTree::parent(t, x)
                || t.child_count(x) != DiffTree::child_count(t, x)
                || t.position(x) != DiffTree::position(t, x)
                || t.height(x) != DiffTree::height(t, x)
                || t.get(x).hash != DiffTree::hash(t, x)
                || t.descendants(x).collect::<Vec<_>>() != DiffTree::descendants(t, x).collect::<Vec<_>>()
            {
                return Err("inherent and trait navigation disagree".into());
            }
        }
        if t.iter().collect::<Vec<_>>() != DiffTree::iter(t).collect::<Vec<_>>()
            || t.post_order().collect::<Vec<_>>() != DiffTree::post_order(t).collect::<Vec<_>>()
        {
            return Err("inherent and trait traversals disagree".into());
        }
        if s.junk == 0 && DiffTree::node_count(t) != k {
            return Err(format!("node count is {}, expected {k}", DiffTree::node_count(t)));
        }
        verify_one("tree with default rules", &WD(W::new(&b)), &b, &p)?;
    }
    Ok(())
}

fn guarded(s: &TS, every: bool) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check_tree(s, every))) {
        Ok(r) => r,
        Err(_) => Err("the code under test panicked".into()),
    }
}

fn text(s: &TS, m: &str) -> String {
    let c = Case { a: s.clone(), b: TS::default(), hashm: 0, sim: 0, thr: 0.5, minh: 1, pairs: None, imp: 0 };
    format!("property C12\nviolated: {}\n{}", m.replace('\n', " "), c.print())
}

pub fn replay(t: &str) -> Result<(), String> {
    guarded(&Case::parse(t).unwrap().a, false)
}

pub fn explore(stop: &AtomicBool, seed: u64, seconds: f64, threads: usize, out: &str) -> i32 {
    let evals = AtomicU64::new(0);
    let nontriv = AtomicU64::new(0);
    let found: Mutex<Option<(String, TS)>> = Mutex::new(None);
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(seconds);
    let one = |s: &TS, every: bool| -> bool {
        evals.fetch_add(1, SeqCst);
        if s.n.len() > 2 {
            nontriv.fetch_add(1, SeqCst);
        }
        match guarded(s, every) {
            Ok(()) => true,
            Err(_) => {
                if !stop.swap(true, SeqCst) {
                    // shortest failing prefix of the additions
                    let mut best = s.clone();
                    for k in 1..=s.n.len() {
                        let p = TS { n: s.n[..k].to_vec(), junk: s.junk };
                        if guarded(&p, false).is_err() {
                            best = p;
                            break;
                        }
                    }
                    let m = guarded(&best, false).err().unwrap_or("not reproducible on a second run".into());
                    *found.lock().unwrap() = Some((m, best));
                }
                false
            }
        }
    };
    let o = GenOpt { opaque: false, text_by_kind: false, faithful: true, same: false, matching: false, valid: false, roots_alike: false };
    // every shape of up to 8 nodes, additions in every parent order given by the shape's numbering
    let n = if seconds > 100.0 { 9 } else { 7 };
    let mut shp = 0;
    'ex: for k in 1..=n {
        for sh in shapes(k) {
            let nodes = (0..k).map(|i| N { parent: sh[i], kind: i as u8, text: Some(i as u32), kv: vec![], opaque: false }).collect();
            shp += 1;
            if !one(&TS { n: nodes, junk: (shp % 5) as u8 }, false) {
                break 'ex;
            }
        }
    }
    std::thread::scope(|sc| {
        for i in 0..threads {
            let (one, stop) = (&one, &stop);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(sc, move || {
                    let mut r = Rng(mix(seed, 1000 + i as u64));
                    for (j, (k, deep)) in [(400usize, true), (1200, false), (3000, true), (400, false)].into_iter().enumerate() {
                        if j % threads == i && !stop.load(SeqCst) {
                            let mut s = gen_tree(&mut r, 1, 2, &o, false, 1);
                            for x in 1..k {
                                let p = if deep { x - 1 } else { r.below(3).min(x - 1) };
                                let mut n = s.n[0].clone();
                                n.parent = if k > 2000 { 0 } else { p };
                                s.n.push(n);
                            }
                            if k > 2000 {
                                s.n.truncate(300);
                            }
                            if !one(&s, false) {
                                return;
                            }
                        }
                    }
                    let mut k = 0;
                    while !stop.load(SeqCst) && Instant::now() < deadline {
                        k += 1;
                        let size = match k % 10 { 0 => 60, 1..=3 => 20, _ => 8 };
                        let n = 1 + r.below(size);
                        let s = gen_tree(&mut r, n, 4, &o, false, 1);
                        if !one(&s, k % 7 == 0) {
                            return;
                        }
                    }
                })
                .unwrap();
        }
    });
    let (e, nt) = (evals.load(SeqCst), nontriv.load(SeqCst));
    if let Some((m, s)) = found.lock().unwrap().clone() {
        let f = format!("{out}/C12.case");
        let _ = std::fs::write(&f, text(&s, &m));
        println!("{{\"found\": true, \"message\": {m:?}, \"file\": {f:?}, \"evaluations\": {e}, \"nontrivial\": {nt}}}");
        return 1;
    }
    println!("{{\"found\": false, \"evaluations\": {e}, \"nontrivial\": {nt}, \"exhaustive\": [\"every tree shape of <= {n} nodes: {shp} trees\"], \"samples\": []}}");
    0
}
