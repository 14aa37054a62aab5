//! Executable form of the contracts (C01..C12, C14) over the real cinereus crate.
//!
//! search run --property C04 --seconds 20 --seed 1 --out DIR   explore, write a replay file on failure
//! search replay FILE                                          re-run one replay file
mod checks;
mod model;
mod treeprops;

use checks::check;
use model::*;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn opts(prop: &str) -> Vec<GenOpt> {
    let base = GenOpt {
        opaque: true,
        text_by_kind: false,
        faithful: false,
        same: false,
        matching: false,
        valid: false,
        roots_alike: false,
    };
    let given = GenOpt { matching: true, ..base };
    let alike = GenOpt { roots_alike: true, ..base };
    match prop {
        "C01" | "C11" => vec![base, alike, GenOpt { faithful: true, ..alike }],
        "C02" | "C03" => vec![GenOpt { faithful: true, ..base }, GenOpt { faithful: true, ..alike }],
        "C04" | "C05" | "C06" | "C07" => vec![given, base, GenOpt { roots_alike: true, ..given }],
        "C10" => vec![given, base, alike, GenOpt { faithful: true, ..alike }],
        "C08" => vec![
            GenOpt { text_by_kind: true, matching: true, valid: true, roots_alike: true, ..base },
            GenOpt { matching: true, valid: true, roots_alike: true, ..base },
        ],
        "C09" => vec![GenOpt { same: true, faithful: true, ..base }],
        "C14" => vec![
            GenOpt { opaque: false, text_by_kind: true, faithful: true, roots_alike: true, ..base },
            GenOpt { opaque: true, text_by_kind: true, faithful: true, roots_alike: true, ..base },
        ],
        _ => vec![base],
    }
}

/// outcome of one evaluation; a panic inside the code under test is reported as Err for the
/// properties that promise a result, and ignored for the others
pub fn guarded(prop: &str, c: &Case) -> Result<bool, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| check(prop, c))) {
        Ok(r) => r,
        Err(e) => {
            let msg = e
                .downcast_ref::<String>()
                .cloned()
                .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or("panic".into());
            if matches!(prop, "C08" | "C09" | "C11" | "C14") {
                Err(format!("the code under test panicked: {msg}"))
            } else {
                Ok(false)
            }
        }
    }
}

fn drop_node(t: &TS, x: usize) -> Option<TS> {
    if x == 0 || x >= t.n.len() {
        return None;
    }
    // remove the subtree of x
    let mut gone = vec![false; t.n.len()];
    gone[x] = true;
    for i in 1..t.n.len() {
        if gone[t.n[i].parent] {
            gone[i] = true;
        }
    }
    let mut map = vec![usize::MAX; t.n.len()];
    let mut out = TS { n: vec![], junk: t.junk };
    for i in 0..t.n.len() {
        if !gone[i] {
            map[i] = out.n.len();
            let mut n = t.n[i].clone();
            n.parent = if i == 0 { 0 } else { map[n.parent] };
            out.n.push(n);
        }
    }
    Some(out)
}

fn remap(t: &TS, x: usize, pairs: &Option<Vec<(usize, usize)>>, first: bool) -> Option<Vec<(usize, usize)>> {
    let pairs = pairs.as_ref()?;
    let mut gone = vec![false; t.n.len()];
    gone[x] = true;
    for i in 1..t.n.len() {
        if gone[t.n[i].parent] {
            gone[i] = true;
        }
    }
    let idx: Vec<usize> = {
        let mut k = 0;
        gone.iter()
            .map(|&g| {
                let r = k;
                if !g {
                    k += 1;
                }
                r
            })
            .collect()
    };
    Some(
        pairs
            .iter()
            .filter(|p| !gone[if first { p.0 } else { p.1 }])
            .map(|&(a, b)| if first { (idx[a], b) } else { (a, idx[b]) })
            .collect(),
    )
}

fn shrink(prop: &str, c: &Case, same: bool) -> Case {
    let mut best = c.clone();
    let t0 = Instant::now();
    loop {
        let mut cands: Vec<Case> = vec![];
        if same {
            let (ca, cb) = (best.a.canonical(), best.b.canonical());
            for x in 1..ca.n.len() {
                let mut d = best.clone();
                d.a = drop_node(&ca, x).unwrap();
                d.b = drop_node(&cb, x).unwrap();
                cands.push(d);
            }
        } else {
            for x in 1..best.a.n.len() {
                let mut d = best.clone();
                d.a = drop_node(&best.a, x).unwrap();
                d.pairs = remap(&best.a, x, &best.pairs, true);
                cands.push(d);
            }
            for x in 1..best.b.n.len() {
                let mut d = best.clone();
                d.b = drop_node(&best.b, x).unwrap();
                d.pairs = remap(&best.b, x, &best.pairs, false);
                cands.push(d);
            }
            if let Some(p) = &best.pairs {
                for i in 0..p.len() {
                    let mut d = best.clone();
                    d.pairs.as_mut().unwrap().remove(i);
                    cands.push(d);
                }
            }
        }
        for f in [
            |d: &mut Case| { d.a.junk = 0; d.b.junk = 0 },
            |d: &mut Case| d.a.n.iter_mut().chain(d.b.n.iter_mut()).for_each(|n| n.kv.clear()),
            |d: &mut Case| d.a.n.iter_mut().chain(d.b.n.iter_mut()).for_each(|n| n.opaque = false),
            |d: &mut Case| d.a.n.iter_mut().chain(d.b.n.iter_mut()).for_each(|n| n.text = None),
            |d: &mut Case| d.thr = 0.5,
            |d: &mut Case| d.minh = 1,
            |d: &mut Case| d.sim = 0,
            |d: &mut Case| d.imp = 0,
        ] {
            let mut d = best.clone();
            f(&mut d);
            if d.print() != best.print() {
                cands.push(d);
            }
        }
        let mut progressed = false;
        for d in cands {
            if t0.elapsed() > Duration::from_secs(20) {
                return best;
            }
            if guarded(prop, &d).is_err() {
                best = d;
                progressed = true;
                break;
            }
        }
        if !progressed {
            return best;
        }
    }
}

struct Shared {
    stop: AtomicBool,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    found: Mutex<Option<(String, String)>>, // message, file text
    sample: Mutex<Vec<String>>,
}

struct Slot {
    since: Mutex<Option<(Instant, String)>>,
}

fn eval(sh: &Shared, slot: &Slot, prop: &str, c: &Case, same: bool, big: bool) -> bool {
    if big || c.a.n.len() + c.b.n.len() > 0 {
        *slot.since.lock().unwrap() = Some((Instant::now(), if big { format!("big\n{}", c.print()) } else { c.print() }));
    }
    let r = guarded(prop, c);
    *slot.since.lock().unwrap() = None;
    let k = sh.evals.fetch_add(1, SeqCst);
    match r {
        Ok(true) => {
            let n = sh.nontrivial.fetch_add(1, SeqCst);
            if n == 50 || n == 5000 {
                sh.sample.lock().unwrap().push(c.print());
            }
            let _ = k;
            true
        }
        Ok(false) => true,
        Err(_) => {
            if sh.stop.swap(true, SeqCst) {
                return false;
            }
            let s = shrink(prop, c, same);
            let (s, m) = match guarded(prop, &s) {
                Err(m) => (s, m),
                Ok(_) => (c.clone(), guarded(prop, c).err().unwrap_or("not reproducible on a second run".into())),
            };
            let text = format!("property {prop}\nviolated: {}\n{}", m.replace('\n', " "), s.print());
            *sh.found.lock().unwrap() = Some((m, text));
            false
        }
    }
}

fn simple_case(a: TS, b: TS, sim: u8) -> Case {
    Case { a, b, hashm: 0, sim, thr: 0.5, minh: 1, pairs: None, imp: 0 }
}

/// all ordered trees up to n nodes with two kinds; optional opacity bit / props bit on each node
fn all_trees(n: usize, variant: u8) -> Vec<TS> {
    let mut out = vec![];
    for k in 1..=n {
        for sh in shapes(k) {
            let bits = if variant == 0 { 1 } else { 2 };
            for code in 0..(1usize << (bits * k)) {
                let nodes = (0..k)
                    .map(|i| {
                        let c = code >> (bits * i);
                        let kind = (c & 1) as u8;
                        let ex = c & 2 != 0;
                        N {
                            parent: sh[i],
                            kind,
                            text: match variant { 2 => Some(ex as u32), _ => if kind == 1 { Some(0) } else { None } },
                            kv: if variant == 3 && ex { vec![(0, 1)] } else { vec![] },
                            opaque: variant == 1 && ex,
                        }
                    })
                    .collect();
                out.push(TS { n: nodes, junk: 0 });
            }
        }
    }
    out
}

fn matchings(c: &Case, cap: usize) -> Vec<Vec<(usize, usize)>> {
    fn rec(x: usize, na: usize, nb: usize, used: u32, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>, cap: usize) {
        if out.len() >= cap {
            return;
        }
        if x == na {
            out.push(cur.clone());
            return;
        }
        rec(x + 1, na, nb, used, cur, out, cap);
        for y in 0..nb {
            if used >> y & 1 == 0 {
                cur.push((x, y));
                rec(x + 1, na, nb, used | 1 << y, cur, out, cap);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    rec(0, c.a.n.len(), c.b.n.len(), 0, &mut vec![], &mut out, cap);
    out
}

fn run(prop: &str, seconds: f64, seed: u64, threads: usize, out: &str) -> i32 {
    let sh = Arc::new(Shared {
        stop: AtomicBool::new(false),
        evals: AtomicU64::new(0),
        nontrivial: AtomicU64::new(0),
        found: Mutex::new(None),
        sample: Mutex::new(vec![]),
    });
    let t0 = Instant::now();
    let mut exhaustive: Vec<String> = vec![];
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot { since: Mutex::new(None) })).collect();
    // watchdog: an evaluation that does not come back
    let wd = {
        let (sh, slots) = (sh.clone(), slots.clone());
        let prop = prop.to_string();
        let out = out.to_string();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            for s in &slots {
                let g = s.since.lock().unwrap();
                if let Some((t, c)) = &*g {
                    let limit = if c.starts_with("big\n") { 120 } else { 20 };
                    if t.elapsed() > Duration::from_secs(limit) {
                        let c = c.strip_prefix("big\n").unwrap_or(c);
                        if matches!(prop.as_str(), "C08" | "C09" | "C11" | "C14") {
                            let f = format!("{out}/{prop}.case");
                            let m = format!("no answer within {limit} s on this input");
                            let _ = std::fs::write(&f, format!("property {prop}\nviolated: {m}\n{c}"));
                            println!("{{\"found\": true, \"message\": {:?}, \"file\": {:?}, \"evaluations\": {}, \"nontrivial\": {}}}", m, f, sh.evals.load(SeqCst), sh.nontrivial.load(SeqCst));
                            std::process::exit(1);
                        }
                        println!("{{\"found\": false, \"hang\": true, \"evaluations\": {}, \"nontrivial\": {}, \"exhaustive\": [], \"samples\": []}}", sh.evals.load(SeqCst), sh.nontrivial.load(SeqCst));
                        std::process::exit(0);
                    }
                }
            }
        })
    };
    let _ = wd;

    if prop == "C12" {
        let r = treeprops::explore(&sh.stop, seed, seconds, threads, out);
        return r;
    }

    // ---- exhaustive part
    let phase = |name: &str, list: Vec<Case>, same: bool, exhaustive: &mut Vec<String>| {
        if sh.stop.load(SeqCst) {
            return;
        }
        let n = list.len();
        let list = Arc::new(list);
        let next = Arc::new(AtomicU64::new(0));
        let deadline = t0 + Duration::from_secs_f64(seconds * 0.6);
        let hs: Vec<_> = (0..threads)
            .map(|i| {
                let (sh, slot, list, next, prop) = (sh.clone(), slots[i].clone(), list.clone(), next.clone(), prop.to_string());
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn(move || {
                        loop {
                            let k = next.fetch_add(1, SeqCst) as usize;
                            if k >= list.len() || sh.stop.load(SeqCst) {
                                return true;
                            }
                            if k % 64 == 0 && Instant::now() > deadline {
                                return false;
                            }
                            if !eval(&sh, &slot, &prop, &list[k], same, false) {
                                return true;
                            }
                        }
                    })
                    .unwrap()
            })
            .collect();
        let all = hs.into_iter().map(|h| h.join().unwrap()).fold(true, |a, b| a & b);
        if all {
            exhaustive.push(format!("{name}: {n} cases"));
        }
    };
    let given = matches!(prop, "C04" | "C05" | "C06" | "C07" | "C08" | "C10");
    {
        // every ordered tree of up to 4 (thorough: 5) nodes, two kinds, against every other
        let n = if seconds > 100.0 { 4 } else { 3 };
        if prop == "C09" {
            let mut l = vec![];
            for v in [0u8, 1, 2, 3] {
                for t in all_trees(if v == 0 { 5 } else { 4 }, v) {
                    for (minh, hashm) in [(0, 0), (1, 1), (2, 2)] {
                        let mut c = simple_case(t.clone(), t.clone(), 1);
                        c.minh = minh;
                        c.hashm = hashm;
                        l.push(c);
                    }
                }
            }
            phase("identical trees of <=4/5 nodes, 2 kinds, opacity/text/property bit", l, true, &mut exhaustive);
        } else {
            for v in [0u8, 1, 2, 3] {
                let ts = all_trees(if v == 0 { n + 1 } else { n }, v);
                let mut l = vec![];
                for (i, a) in ts.iter().enumerate() {
                    for (j, b) in ts.iter().enumerate() {
                        let mut c = simple_case(a.clone(), b.clone(), if v == 3 { 1 } else { 0 });
                        c.minh = (i + j) % 2;
                        c.hashm = ((i * 7 + j) % 3) as u8;
                        c.imp = ((i + j / 2) % 4) as u8;
                        l.push(c);
                    }
                }
                phase(&format!("all pairs of trees of <={} nodes, variant {v}", if v == 0 { n + 1 } else { n }), l, false, &mut exhaustive);
                if given {
                    let small = all_trees(3, v);
                    let mut l = vec![];
                    for a in small.iter() {
                        for b in small.iter() {
                            if v != 0 && (a.n.len() > 2 || b.n.len() > 2) && (a.n.len() + b.n.len() > 5) {
                                continue;
                            }
                            let c = simple_case(a.clone(), b.clone(), 0);
                            for m in matchings(&c, 60) {
                                let mut d = c.clone();
                                d.pairs = Some(m);
                                l.push(d);
                            }
                            if l.len() > 400_000 {
                                break;
                            }
                        }
                    }
                    phase(&format!("all matchings between trees of <=3 nodes (5 in total when labelled), variant {v}"), l, false, &mut exhaustive);
                }
            }
        }
    }
    // ---- raw Matching API (C01) and large cases
    if !sh.stop.load(SeqCst) && prop == "C01" {
        match panic::catch_unwind(|| checks::matching_api(seed, seconds)) {
            Ok(Ok(n)) => {
                sh.evals.fetch_add(n, SeqCst);
                sh.nontrivial.fetch_add(n, SeqCst);
            }
            Ok(Err((m, script))) => {
                sh.stop.store(true, SeqCst);
                *sh.found.lock().unwrap() = Some((m.clone(), format!("property C01\nviolated: {m}\napi {script}\n")));
            }
            Err(_) => {}
        }
    }
    // ---- random part
    let deadline = t0 + Duration::from_secs_f64(seconds);
    let hs: Vec<_> = (0..threads)
        .map(|i| {
            let (sh, slot, prop) = (sh.clone(), slots[i].clone(), prop.to_string());
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let os = opts(&prop);
                    let mut r = Rng(mix(seed, i as u64 + 1));
                    let mut k = 0usize;
                    if sh.stop.load(SeqCst) {
                        return;
                    }
                    // a few large inputs, spread over the workers
                    for (j, c) in checks::large(&prop, &mut Rng(seed), &os).into_iter().enumerate() {
                        if j % threads == i && !sh.stop.load(SeqCst) && !eval(&sh, &slot, &prop, &c, os[0].same, true) {
                            return;
                        }
                    }
                    while !sh.stop.load(SeqCst) && Instant::now() < deadline {
                        k += 1;
                        let size = match k % 40 {
                            0 => 60,
                            1..=4 => 25,
                            5..=15 => 12,
                            16..=28 => 7,
                            _ => 4,
                        };
                        let o = os[r.below(os.len())];
                        let c = gen_case(&mut r, size, &o);
                        if !eval(&sh, &slot, &prop, &c, o.same, false) {
                            return;
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    let js = |v: &[String]| format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "));
    if let Some((m, text)) = sh.found.lock().unwrap().clone() {
        let f = format!("{out}/{prop}.case");
        let _ = std::fs::write(&f, text);
        println!("{{\"found\": true, \"message\": {m:?}, \"file\": {f:?}, \"evaluations\": {}, \"nontrivial\": {}}}", sh.evals.load(SeqCst), sh.nontrivial.load(SeqCst));
        return 1;
    }
    println!(
        "{{\"found\": false, \"evaluations\": {}, \"nontrivial\": {}, \"exhaustive\": {}, \"samples\": {}}}",
        sh.evals.load(SeqCst),
        sh.nontrivial.load(SeqCst),
        js(&exhaustive),
        js(&sh.sample.lock().unwrap())
    );
    0
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.into())
    };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let code = run(
                &get("--property", "C01"),
                get("--seconds", "20").parse().unwrap(),
                get("--seed", "1").parse().unwrap(),
                get("--threads", "8").parse().unwrap(),
                &get("--out", "."),
            );
            std::process::exit(code);
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let prop = text.lines().find_map(|l| l.strip_prefix("property ")).unwrap().trim().to_string();
            let r = std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    if let Some(s) = text.lines().find_map(|l| l.strip_prefix("api ")) {
                        return checks::matching_api_replay(s).err();
                    }
                    if prop == "C12" {
                        return treeprops::replay(&text).err();
                    }
                    guarded(&prop, &Case::parse(&text).unwrap()).err()
                })
                .unwrap()
                .join()
                .unwrap();
            match r {
                Some(m) => {
                    println!("REPRODUCED: {m}");
                    std::process::exit(1);
                }
                None => println!("not reproduced"),
            }
        }
        _ => eprintln!("usage: run|replay"),
    }
}
