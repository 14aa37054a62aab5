//! Executable form of the contracts H02, H04..H08 over the real hotmeal sources.
//!
//! run --property H04 --seconds 8 --seed 1 --threads 8 --out DIR
//! replay FILE
mod apply;
mod e2e;
mod checks;
mod edit;
mod sink;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A case is the list of choices its generator made.
pub struct Src {
    given: Vec<u64>,
    pub made: Vec<(u64, u64)>,
    rng: Option<u64>,
    pub small: bool,
    /// what the choices stand for, for the reader
    pub says: String,
}
impl Src {
    fn new(given: Vec<u64>, rng: Option<u64>, small: bool) -> Self {
        Src { given, made: vec![], rng, small, says: String::new() }
    }
    /// a choice out of 0..k
    pub fn n(&mut self, k: u64) -> u64 {
        let i = self.made.len();
        let v = if i < self.given.len() {
            self.given[i] % k
        } else if let Some(s) = &mut self.rng {
            *s ^= *s << 13;
            *s ^= *s >> 7;
            *s ^= *s << 17;
            (*s >> 11) % k
        } else {
            0
        };
        self.made.push((v, k));
        v
    }
    pub fn pick<'x, T: ?Sized>(&mut self, l: &[&'x T]) -> &'x T {
        l[self.n(l.len() as u64) as usize]
    }
    pub fn say(&mut self, s: String) {
        self.says.push_str(&s);
        self.says.push('\n');
    }
}

/// Ok(true): the case exercises the property and it holds; Err: it does not hold
fn eval(prop: &str, s: &mut Src) -> Result<bool, String> {
    match panic::catch_unwind(panic::AssertUnwindSafe(|| checks::check(prop, s))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into());
            Err(format!("the code under test panicked: {m}"))
        }
    }
}
fn again(prop: &str, c: &[u64], small: bool) -> (Result<bool, String>, Src) {
    let mut s = Src::new(c.to_vec(), None, small);
    let r = eval(prop, &mut s);
    (r, s)
}
fn shrink(prop: &str, c: Vec<u64>, small: bool) -> Vec<u64> {
    let mut best = c;
    let t0 = Instant::now();
    'o: loop {
        let n = best.len();
        let mut cands: Vec<Vec<u64>> = vec![];
        for w in [n / 2, n / 4, 8, 4, 3, 2, 1] {
            if w == 0 || w > n {
                continue;
            }
            for i in (0..=n - w).rev() {
                let mut d = best.clone();
                d.drain(i..i + w);
                cands.push(d);
            }
        }
        for i in 0..n {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if v < best[i] {
                    let mut d = best.clone();
                    d[i] = v;
                    cands.push(d);
                }
            }
        }
        for d in cands {
            if t0.elapsed() > Duration::from_secs(15) {
                return best;
            }
            let (r, s) = again(prop, &d, small);
            if r.is_err() {
                let used: Vec<u64> = s.made.iter().map(|x| x.0).collect();
                let sum = |v: &[u64]| (v.len(), v.iter().sum::<u64>());
                if sum(&used) < sum(&best) {
                    best = used;
                    continue 'o;
                }
            }
        }
        return best;
    }
}
struct Shared {
    stop: AtomicBool,
    evals: AtomicU64,
    nontrivial: AtomicU64,
    found: Mutex<Option<(String, String)>>,
    sample: Mutex<Vec<String>>,
}
fn one(sh: &Shared, prop: &str, s: &mut Src) -> bool {
    let r = eval(prop, s);
    sh.evals.fetch_add(1, SeqCst);
    match r {
        Ok(t) => {
            if t {
                let k = sh.nontrivial.fetch_add(1, SeqCst);
                if k == 20 || k == 2000 {
                    sh.sample.lock().unwrap().push(s.says.clone());
                }
            }
            true
        }
        Err(m0) => {
            if sh.stop.swap(true, SeqCst) {
                return false;
            }
            let c = shrink(prop, s.made.iter().map(|x| x.0).collect(), s.small);
            let (r, s2) = again(prop, &c, s.small);
            let m = r.err().unwrap_or(format!("{m0} (not reproducible on a second run)"));
            let text = format!(
                "property {prop}\nviolated: {}\nsmall {}\nchoices {}\n{}",
                m.replace('\n', " "),
                s.small,
                c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "),
                s2.says.lines().map(|l| format!("# {l}\n")).collect::<String>()
            );
            *sh.found.lock().unwrap() = Some((m, text));
            false
        }
    }
}
fn run(prop: &str, seconds: f64, seed: u64, threads: usize, out: &str) -> i32 {
    let sh = Arc::new(Shared { stop: AtomicBool::new(false), evals: AtomicU64::new(0), nontrivial: AtomicU64::new(0), found: Mutex::new(None), sample: Mutex::new(vec![]) });
    let t0 = Instant::now();
    // every sequence of choices of the small generator, as far as a third of the time allows
    let mut exhaustive = vec![];
    {
        let mut c: Vec<u64> = vec![];
        let mut n = 0u64;
        loop {
            let mut s = Src::new(c.clone(), None, true);
            if !one(&sh, prop, &mut s) {
                break;
            }
            n += 1;
            let mut m = s.made;
            while let Some(&(v, k)) = m.last() {
                if v + 1 < k {
                    break;
                }
                m.pop();
            }
            match m.last_mut() {
                None => {
                    exhaustive.push(format!("every choice of the small generator: {n} cases"));
                    break;
                }
                Some(x) => x.0 += 1,
            }
            c = m.iter().map(|x| x.0).collect();
            if t0.elapsed().as_secs_f64() > seconds / 3.0 {
                break;
            }
        }
    }
    let deadline = t0 + Duration::from_secs_f64(seconds);
    let hs: Vec<_> = (0..threads)
        .map(|i| {
            let (sh, prop) = (sh.clone(), prop.to_string());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut k = 0u64;
                    while !sh.stop.load(SeqCst) && Instant::now() < deadline {
                        k += 1;
                        let mut z = (seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (i as u64 + 1).wrapping_mul(0xBF58476D1CE4E5B9)).wrapping_add(k.wrapping_mul(0x94D049BB133111EB));
                        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                        z ^= z >> 27;
                        let mut s = Src::new(vec![], Some(z | 1), k % 3 == 0);
                        if !one(&sh, &prop, &mut s) {
                            return;
                        }
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    if let Some((m, text)) = sh.found.lock().unwrap().clone() {
        let f = format!("{out}/{prop}.case");
        let _ = std::fs::write(&f, text);
        println!("{{\"found\": true, \"message\": {}, \"file\": {}, \"evaluations\": {}, \"nontrivial\": {}}}", js(&m), js(&f), sh.evals.load(SeqCst), sh.nontrivial.load(SeqCst));
        return 1;
    }
    let list = |v: &[String]| format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    println!(
        "{{\"found\": false, \"evaluations\": {}, \"nontrivial\": {}, \"exhaustive\": {}, \"samples\": {}}}",
        sh.evals.load(SeqCst),
        sh.nontrivial.load(SeqCst),
        list(&exhaustive),
        list(&sh.sample.lock().unwrap())
    );
    0
}
/// a JSON string
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn main() {
    panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String { args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned()).unwrap_or(d.into()) };
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => std::process::exit(run(
            &get("--property", "H04"),
            get("--seconds", "8").parse().unwrap(),
            get("--seed", "1").parse().unwrap(),
            get("--threads", "8").parse().unwrap(),
            &get("--out", "."),
        )),
        Some("replay") => {
            let t = std::fs::read_to_string(&args[2]).unwrap();
            let line = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap().trim().to_string();
            let c: Vec<u64> = line("choices").split_whitespace().map(|x| x.parse().unwrap()).collect();
            match again(&line("property "), &c, line("small ") == "true").0 {
                Err(m) => {
                    println!("REPRODUCED: {m}");
                    std::process::exit(1);
                }
                Ok(_) => println!("not reproduced"),
            }
        }
        _ => eprintln!("usage: run|replay"),
    }
}
