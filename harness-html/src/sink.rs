//! H14: the document that comes out of the calls html5ever's tree builder makes.
use crate::Src;
use crate::checks::qual;
use hotmeal::*;
use html5ever::{Attribute, Call, NodeOr};

#[derive(Clone, PartialEq, Debug)]
enum What {
    Doc,
    El(String, Vec<(QualName, String)>),
    Text(String),
    Comment(String),
}
struct Node {
    what: What,
    ns: Namespace,
    par: Option<usize>,
    kids: Vec<usize>,
}
struct Model(Vec<Node>);
impl Model {
    fn make(&mut self, what: What, ns: Namespace) -> usize {
        self.0.push(Node { what, ns, par: None, kids: vec![] });
        self.0.len() - 1
    }
    fn out(&mut self, x: usize) {
        if let Some(p) = self.0[x].par.take() {
            self.0[p].kids.retain(|k| *k != x);
        }
    }
    fn above(&self, x: usize, mut y: usize) -> bool {
        loop {
            if x == y {
                return true;
            }
            match self.0[y].par {
                Some(p) => y = p,
                None => return false,
            }
        }
    }
    /// before the child `at` of `p`, or last
    fn put(&mut self, p: usize, at: Option<usize>, c: &Put) {
        match c {
            Put::Node(n) => {
                self.out(*n);
                let k = at.map_or(self.0[p].kids.len(), |x| self.0[p].kids.iter().position(|y| *y == x).unwrap());
                self.0[p].kids.insert(k, *n);
                self.0[*n].par = Some(p);
            }
            Put::Text(t) => {
                let k = at.map_or(self.0[p].kids.len(), |x| self.0[p].kids.iter().position(|y| *y == x).unwrap());
                if k > 0 {
                    let b = self.0[p].kids[k - 1];
                    if let What::Text(o) = &mut self.0[b].what {
                        o.push_str(t);
                        return;
                    }
                }
                let n = self.make(What::Text(t.clone()), Namespace::Html);
                self.0[p].kids.insert(k, n);
                self.0[n].par = Some(p);
            }
        }
    }
}
#[derive(Debug)]
enum Put {
    Node(usize),
    Text(String),
}
const TEXTS: [&str; 6] = ["a", "é<", "", "x y", "\u{a0}&", "own"];
const HEADS: [&str; 10] = ["<!DOCTYPE html>", " \n<!doctype HTML>", "", "<HTML>", "x<Body id=1>", "<!doctyp", "\u{a0}<!doctype html>", "<!-- <!doctype html> --><bod", "<!DocType", "\t<!doc\u{a0}type html>"];
const REST: &str = "aé<x y\u{a0}&";
/// the text html5ever should get for a page, and whether it has a doctype of its own
fn fed(t: &str) -> (String, bool) {
    let own = t.trim_start_matches([' ', '\t', '\n', '\r', '\x0c']).get(..9).is_some_and(|x| x.eq_ignore_ascii_case("<!doctype"));
    let has = |w: &str| (0..t.len()).any(|i| t.get(i..i + w.len()).is_some_and(|x| x.eq_ignore_ascii_case(w)));
    if own {
        (t.into(), true)
    } else if has("<html") || has("<body") {
        (["<!DOCTYPE html>", t].concat(), false)
    } else {
        (["<!DOCTYPE html><html><body>", t, "</body></html>"].concat(), false)
    }
}
thread_local! {
    static GOT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
fn attrs(s: &mut Src) -> Vec<(QualName, String)> {
    (0..s.n(if s.small { 3 } else { 5 })).map(|_| (qual(s), s.pick(&["", "1", "2"]).to_string())).collect()
}
fn given(l: &[(QualName, String)]) -> Vec<Attribute> {
    l.iter().map(|(q, v)| Attribute { name: q.clone(), value: StrTendril::from(v.as_str()) }).collect()
}
const URLS: [&str; 4] = ["http://www.w3.org/1999/xhtml", "http://www.w3.org/2000/svg", "http://www.w3.org/1998/Math/MathML", "urn:x"];
fn same(d: &Document, x: NodeId, m: &Model, i: usize, seen: &mut usize) -> Result<(), String> {
    *seen += 1;
    let n = d.get(x);
    let got = match &n.kind {
        NodeKind::Document => What::Doc,
        NodeKind::Element(e) => What::El(e.tag.to_string(), e.attrs.iter().map(|(q, v)| (q.clone(), v.as_str().to_string())).collect()),
        NodeKind::Text(t) => What::Text(t.as_str().to_string()),
        NodeKind::Comment(t) => What::Comment(t.as_str().to_string()),
    };
    if got != m.0[i].what || n.ns != m.0[i].ns {
        return Err(format!("a node is {got:?} ({:?}), should be {:?} ({:?})", n.ns, m.0[i].what, m.0[i].ns));
    }
    let kids: Vec<NodeId> = d.children(x).collect();
    for (k, j) in kids.iter().zip(&m.0[i].kids) {
        same(d, *k, m, *j, seen)?;
    }
    if kids.len() != m.0[i].kids.len() {
        return Err(format!("{:?} has {} children, should have {}", m.0[i].what, kids.len(), m.0[i].kids.len()));
    }
    Ok(())
}
pub fn h14(s: &mut Src) -> Result<bool, String> {
    let mut m = Model(vec![Node { what: What::Doc, ns: Namespace::Html, par: None, kids: vec![] }]);
    // the nodes the script has made itself (not the texts), as numbered in the model
    let mut made = vec![0usize];
    let mut calls: Vec<Call> = vec![];
    let (mut doctype, mut errors) = (None, vec![]);
    let fragment = s.n(2) == 1;
    let steps = s.n(if s.small { 7 } else { 24 });
    for _ in 0..steps {
        let k = made.len() as u64;
        let (x, y) = (s.n(k) as usize, s.n(k) as usize);
        let (mx, my) = (made[x], made[y]);
        let op = s.n(14);
        let call = match op {
            0 | 1 => {
                let t = s.pick(&["p", "table"]);
                let u = URLS[s.n(if s.small { 2 } else { 4 }) as usize];
                let ns = if u == URLS[1] { Namespace::Svg } else if u == URLS[2] { Namespace::MathMl } else { Namespace::Html };
                let a = attrs(s);
                made.push(m.make(What::El(t.into(), a.clone()), ns));
                let name = QualName { prefix: None, ns: u.into(), local: t.into() };
                Call::Element(name, given(&a))
            }
            2 => {
                let t = s.pick(&TEXTS);
                made.push(m.make(What::Comment(t.into()), Namespace::Html));
                Call::Comment(StrTendril::from(t))
            }
            3 => {
                made.push(m.make(What::Comment("".into()), Namespace::Html));
                Call::Pi
            }
            4..=9 => {
                // where to, and what
                let el = y;
                let z = s.n(k) as usize;
                let (put, c) = if s.n(2) == 0 && z != 0 { (Put::Node(made[z]), NodeOr::Node(z)) } else { let t = s.pick(&TEXTS); (Put::Text(t.into()), NodeOr::Text(StrTendril::from(t))) };
                let free = |m: &Model, at: usize| !matches!(put, Put::Node(n) if m.above(n, at));
                match op {
                    4..=6 => {
                        if !free(&m, mx) {
                            continue;
                        }
                        m.put(mx, None, &put);
                        Call::Append(x, c)
                    }
                    7 | 8 => {
                        let Some(p) = m.0[mx].par else { continue };
                        if !free(&m, mx) {
                            continue;
                        }
                        m.put(p, Some(mx), &put);
                        Call::Before(x, c)
                    }
                    _ => {
                        if !free(&m, mx) || !free(&m, my) {
                            continue;
                        }
                        match m.0[mx].par {
                            Some(p) => m.put(p, Some(mx), &put),
                            None => m.put(my, None, &put),
                        }
                        Call::Based(x, el, c)
                    }
                }
            }
            10 => {
                let a = attrs(s);
                if let What::El(_, l) = &mut m.0[mx].what {
                    for (q, v) in &a {
                        if l.iter().all(|k| k.0 != *q) {
                            l.push((q.clone(), v.clone()));
                        }
                    }
                }
                Call::AddAttrs(x, given(&a))
            }
            11 => {
                if x == 0 {
                    continue;
                }
                m.out(mx);
                Call::Remove(x)
            }
            12 => {
                if m.above(mx, my) {
                    continue;
                }
                let l = std::mem::take(&mut m.0[mx].kids);
                for k in &l {
                    m.0[*k].par = Some(my);
                }
                m.0[my].kids.extend(l);
                Call::Reparent(x, y)
            }
            _ => {
                let t = s.pick(&TEXTS);
                if s.n(2) == 0 {
                    doctype = Some(t.to_string());
                    Call::Doctype(StrTendril::from(t))
                } else {
                    errors.push(t.to_string());
                    Call::Error(t.to_string())
                }
            }
        };
        s.say(format!("{call:?}"));
        calls.push(call);
    }
    let names: Vec<(String, String)> = made
        .iter()
        .map(|i| match &m.0[*i].what {
            What::El(t, _) => (URLS[match m.0[*i].ns { Namespace::Html => 0, Namespace::Svg => 1, Namespace::MathMl => 2 }].to_string(), t.clone()),
            _ => (URLS[0].to_string(), "".to_string()),
        })
        .collect();
    let text = format!("{}{REST}", HEADS[s.n(if s.small { 3 } else { 10 }) as usize]);
    let (want, own) = if fragment { (text.clone(), true) } else { fed(&text) };
    s.say(format!("{} of {text:?}", if fragment { "parse_body_fragment" } else { "parse" }));
    let input = StrTendril::from(text);
    // some texts are parts of the input, some are not
    let slice = s.n(3);
    let script = move |all: &StrTendril| {
        GOT.with(|g| *g.borrow_mut() = all.to_string());
        let mut count = 0u64;
        let mut part = |t: &mut StrTendril| {
            count += 1;
            if slice != 0 && (slice == 1 || count % 2 == 0) {
                if let Some(i) = all.find(&**t) {
                    *t = all.subtendril(i as u32, t.len() as u32);
                }
            }
        };
        let mut calls = calls;
        for c in &mut calls {
            match c {
                Call::Comment(t) | Call::Doctype(t) => part(t),
                Call::Append(_, NodeOr::Text(t)) | Call::Before(_, NodeOr::Text(t)) | Call::Based(_, _, NodeOr::Text(t)) => part(t),
                Call::Element(_, l) | Call::AddAttrs(_, l) => l.iter_mut().for_each(|a| part(&mut a.value)),
                _ => {}
            }
        }
        calls
    };
    html5ever::SCRIPT.with(|c| *c.borrow_mut() = Some(Box::new(script)));
    let d = if fragment { parse_body_fragment(&input) } else { parse(&input) };
    let got = GOT.with(|g| g.borrow().clone());
    if got != want {
        return Err(format!("html5ever is given {got:?}, should be {want:?}"));
    }
    let doctype = doctype.filter(|_| own);
    if d.doctype.as_ref().map(|t| t.as_str().to_string()) != doctype {
        return Err(format!("the doctype is {:?}, should be {doctype:?}", d.doctype));
    }
    let got: Vec<String> = d.errors.iter().map(|e| e.to_string()).collect();
    if got != errors {
        return Err(format!("the errors are {got:?}, should be {errors:?}"));
    }
    let got = html5ever::NAMES.with(|n| n.borrow().clone());
    if got != names {
        return Err(format!("the names reported to the tree builder are {got:?}, should be {names:?}"));
    }
    let top = d.parent(d.root).unwrap_or(d.root);
    let first = m.0[0].kids.iter().position(|k| matches!(m.0[*k].what, What::El(..)));
    if first.is_none() != (top == d.root) || first.is_some_and(|i| d.children(top).nth(i) != Some(d.root)) {
        return Err(format!("the root is {:?}, should be child {first:?} of the document node", d.get(d.root).kind));
    }
    let mut seen = 0;
    same(&d, top, &m, 0, &mut seen)?;
    Ok(seen > 2)
}
