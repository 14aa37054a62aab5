use crate::Src;
use cinereus::tree::PropValue;
use cinereus::Properties;
use hotmeal::*;
use std::collections::HashMap;

pub fn check(prop: &str, s: &mut Src) -> Result<bool, String> {
    match prop {
        "H02" => h02(s),
        "H04" => h04(s),
        "H05" => h05(s),
        "H06" => h06(s),
        "H07" => h07(s),
        "H08" => crate::apply::h08(s),
        "H03" => crate::e2e::h03(s),
        "H09" => crate::e2e::h09(s),
        "H10" => crate::e2e::h10(s),
        "H11" => crate::e2e::h11(s),
        "H01" => crate::e2e::h01(s),
        "H12" => crate::e2e::h12(s),
        "H13" => crate::edit::h13(s),
        "H14" => crate::sink::h14(s),
        _ => Err("no such property".into()),
    }
}
pub fn qual(s: &mut Src) -> QualName {
    let p = if s.small { None } else { [None, None, Some("xlink"), Some("xml")][s.n(4) as usize] };
    let ns = if s.small { "" } else { ["", "", "http://www.w3.org/1999/xlink"][s.n(3) as usize] };
    let l = if s.small { s.pick(&["a", "b", "c"]) } else { s.pick(&["a", "b", "id", "class", "href", "A"]) };
    QualName { prefix: p.map(|x| x.into()), ns: ns.into(), local: l.into() }
}
fn text(s: &mut Src) -> String {
    let n = s.n(if s.small { 3 } else { 9 });
    (0..n).map(|_| s.pick(&["&", "<", "\"", "'", ">", "\u{a0}", "a", "amp;", "lt;", "é", "=", "#39;", " ", "\n"])).collect()
}
fn stem<'a>(t: &'a str, s: &mut Src) -> Stem<'a> {
    if s.n(2) == 0 { Stem::Borrowed(t) } else { Stem::Owned(t.into()) }
}

// ---------------------------------------------------------------- H04
fn attr_list<'a>(s: &mut Src) -> Vec<(QualName, Stem<'a>)> {
    let n = s.n(if s.small { 4 } else { 7 });
    let mut v: Vec<(QualName, Stem<'a>)> = vec![];
    for _ in 0..n {
        let k = qual(s);
        let x = s.pick(&["", "1", "2"]);
        if v.iter().all(|(q, _)| *q != k) {
            v.push((k, Stem::Borrowed(x)));
        }
    }
    v
}
fn h04(s: &mut Src) -> Result<bool, String> {
    let (a, b) = (attr_list(s), attr_list(s));
    let show = |l: &[(QualName, Stem)]| l.iter().map(|(k, v)| format!("{k:?}={:?}", v.as_str())).collect::<Vec<_>>().join(" ");
    s.say(format!("old: {}", show(&a)));
    s.say(format!("new: {}", show(&b)));
    let r = HtmlProps { attrs: a.clone() }.diff(&HtmlProps { attrs: b.clone() });
    if r.len() != b.len() {
        return Err(format!("{} entries for {} attributes", r.len(), b.len()));
    }
    let mut different = 0;
    for (i, e) in r.iter().enumerate() {
        if e.key != PropKey::Attr(b[i].0.clone()) {
            return Err(format!("entry {i} names {:?}", e.key));
        }
        let old = a.iter().find(|x| x.0 == b[i].0).map(|x| x.1.as_str());
        match &e.value {
            PropValue::Same => {
                if old != Some(b[i].1.as_str()) {
                    return Err(format!("entry {i} is marked unchanged, the old value is {old:?}"));
                }
            }
            PropValue::Different(v) => {
                different += 1;
                if v.as_str() != b[i].1.as_str() {
                    return Err(format!("entry {i} carries {:?}", v.as_str()));
                }
            }
        }
    }
    let equal = a.len() == b.len() && (0..a.len()).all(|i| a[i].0 == b[i].0 && a[i].1.as_str() == b[i].1.as_str());
    if equal && different > 0 {
        return Err("equal lists, but an entry is marked changed".into());
    }
    if !equal && different == 0 && r.len() >= a.len() {
        return Err("the lists differ, but nothing is marked changed and nothing is missing".into());
    }
    Ok(!equal)
}

// ---------------------------------------------------------------- documents
const VOID: &[&str] = &["br", "img"];
const RAW: &[&str] = &["script", "style"];
pub enum Shape {
    Text(String),
    Comment(String),
    Element(String, Vec<(QualName, String)>, Vec<Shape>),
}
fn shape(s: &mut Src, depth: u32) -> Shape {
    match s.n(8) {
        0..=2 => Shape::Text(text(s)),
        3 => Shape::Comment(s.pick(&["c", "", "x y"]).to_string()),
        _ => {
            let t = s.pick(&["div", "p", "textarea", "title", "br", "img", "script", "style", "x-y", "pre"]);
            let mut at: Vec<(QualName, String)> = vec![];
            for _ in 0..s.n(3) {
                let q = qual(s);
                if at.iter().all(|x| x.0 != q) {
                    at.push((q, text(s)));
                }
            }
            let mut ch = vec![];
            if RAW.contains(&t) {
                if s.n(2) == 1 {
                    ch.push(Shape::Text(s.pick(&["x", "a b"]).to_string()));
                }
            } else if !VOID.contains(&t) && depth > 0 {
                for _ in 0..s.n(if s.small { 2 } else { 4 }) {
                    ch.push(shape(s, depth - 1));
                }
            }
            Shape::Element(t.to_string(), at, ch)
        }
    }
}
fn build(d: &mut Document<'static>, x: &Shape) -> NodeId {
    match x {
        Shape::Text(t) => d.create_text(Stem::Owned(t.as_str().into())),
        Shape::Comment(t) => d.create_comment(Stem::Owned(t.as_str().into())),
        Shape::Element(t, at, ch) => {
            let n = d.create_element(t.as_str());
            for (q, v) in at {
                d.set_attr(n, q.clone(), Stem::Owned(v.as_str().into()));
            }
            for c in ch {
                let c = build(d, c);
                d.append_child(n, c);
            }
            n
        }
    }
}
fn say(s: &mut Src, x: &Shape, ind: usize) {
    let p = " ".repeat(ind);
    match x {
        Shape::Text(t) => s.say(format!("{p}text {t:?}")),
        Shape::Comment(t) => s.say(format!("{p}comment {t:?}")),
        Shape::Element(t, at, ch) => {
            s.say(format!("{p}<{t}> {at:?}"));
            for c in ch {
                say(s, c, ind + 1);
            }
        }
    }
}

// ---------------------------------------------------------------- H05
fn unescape(mut r: &str) -> String {
    let mut o = String::new();
    'o: while !r.is_empty() {
        for (e, c) in [("&amp;", '&'), ("&lt;", '<'), ("&gt;", '>'), ("&quot;", '"'), ("&#39;", '\''), ("&nbsp;", '\u{a0}')] {
            if let Some(x) = r.strip_prefix(e) {
                o.push(c);
                r = x;
                continue 'o;
            }
        }
        let c = r.chars().next().unwrap();
        o.push(c);
        r = &r[c.len_utf8()..];
    }
    o
}
fn eat<'x>(r: &'x str, p: &str) -> Result<&'x str, String> {
    r.strip_prefix(p).ok_or(format!("expected {p:?} at {:?}", r.chars().take(30).collect::<String>()))
}
/// Read the node from the front of `r`.
fn read<'x>(r: &'x str, x: &Shape, raw: bool) -> Result<&'x str, String> {
    match x {
        Shape::Text(t) if raw => eat(r, t),
        Shape::Text(t) => {
            // the text ends where a tag or comment begins
            let end = r.find('<').unwrap_or(r.len());
            let got = unescape(&r[..end]);
            // the neighbour may be text as well
            match got.strip_prefix(t.as_str()) {
                Some(_) => {
                    let mut k = 0;
                    while unescape(&r[..k]) != *t {
                        k += 1;
                        while !r.is_char_boundary(k) {
                            k += 1;
                        }
                        if k > end {
                            return Err(format!("text {t:?} is not read back from {:?}", &r[..end]));
                        }
                    }
                    // the longest reading, so that "&" is not taken for the start of "&amp;"
                    let mut best = k;
                    let mut i = k;
                    while i <= end {
                        if r.is_char_boundary(i) && unescape(&r[..i]) == *t {
                            best = i;
                        }
                        i += 1;
                    }
                    Ok(&r[best..])
                }
                None => Err(format!("text {t:?} is read back as {got:?}")),
            }
        }
        Shape::Comment(t) => eat(eat(eat(r, "<!--")?, t)?, "-->"),
        Shape::Element(t, at, ch) => {
            let mut r = eat(eat(r, "<")?, t)?;
            for (q, v) in at {
                r = eat(r, " ")?;
                if let Some(p) = &q.prefix {
                    r = eat(eat(r, p)?, ":")?;
                }
                r = eat(eat(r, &q.local)?, "=\"")?;
                let end = r.find('"').ok_or("unterminated value")?;
                let got = unescape(&r[..end]);
                if got != *v {
                    return Err(format!("attribute value {v:?} is read back as {got:?}"));
                }
                r = &r[end + 1..];
            }
            r = eat(r, ">")?;
            if VOID.contains(&t.as_str()) {
                return Ok(r);
            }
            for c in ch {
                r = read(r, c, RAW.contains(&t.as_str()))?;
            }
            eat(eat(eat(r, "</")?, t)?, ">")
        }
    }
}
fn h05(s: &mut Src) -> Result<bool, String> {
    let x = shape(s, if s.small { 1 } else { 3 });
    say(s, &x, 0);
    // two neighbouring text nodes make one run of text: merge is not the property's subject
    fn runs(l: &[Shape]) -> bool {
        l.windows(2).any(|w| matches!((&w[0], &w[1]), (Shape::Text(_), Shape::Text(_))))
            || l.iter().any(|c| if let Shape::Element(_, _, k) = c { runs(k) } else { false })
    }
    if runs(std::slice::from_ref(&x)) {
        return Ok(false);
    }
    let mut d = Document::new();
    let b = d.body().unwrap();
    let n = build(&mut d, &x);
    d.append_child(b, n);
    for got in [d.serialize_inner_html(b), d.to_body_html()] {
        s.say(format!("serialised: {got}"));
        let rest = read(&got, &x, false)?;
        if !rest.is_empty() {
            return Err(format!("left over: {rest:?}"));
        }
    }
    Ok(true)
}

// ---------------------------------------------------------------- H06
pub fn content<'a>(s: &mut Src, depth: u32) -> InsertContent<'a> {
    match s.n(4) {
        0 => InsertContent::Text(word(s)),
        1 => InsertContent::Comment(word(s)),
        _ => InsertContent::Element {
            tag: s.pick(&["div", "p"]).into(),
            attrs: attrs(s),
            children: if depth == 0 { vec![] } else { (0..s.n(3)).map(|_| content(s, depth - 1)).collect() },
        },
    }
}
pub fn word<'a>(s: &mut Src) -> Stem<'a> {
    let t = s.pick(&["", "x", "<&>", "long enough not to be stored inline, surely"]);
    stem(t, s)
}
pub fn attrs<'a>(s: &mut Src) -> Vec<AttrPair<'a>> {
    (0..s.n(3)).map(|_| AttrPair { name: qual(s), value: word(s) }).collect()
}
fn path(s: &mut Src) -> NodePath {
    let n = s.n(4);
    NodePath((0..n).map(|_| s.n(3) as u32).collect::<Vec<_>>().into_iter().collect())
}
fn slot(s: &mut Src) -> Option<u32> {
    [None, Some(1), Some(7)][s.n(3) as usize]
}
pub fn patch<'a>(s: &mut Src) -> Patch<'a> {
    let d = if s.small { 1 } else { 3 };
    match s.n(10) {
        0 => Patch::InsertElement { at: NodeRef(path(s)), tag: s.pick(&["div", "p"]).into(), attrs: attrs(s), children: (0..s.n(3)).map(|_| content(s, d)).collect(), detach_to_slot: slot(s) },
        1 => Patch::InsertText { at: NodeRef(path(s)), text: word(s), detach_to_slot: slot(s) },
        2 => Patch::InsertComment { at: NodeRef(path(s)), text: word(s), detach_to_slot: slot(s) },
        3 => Patch::Remove { node: NodeRef(path(s)) },
        4 => Patch::SetText { path: path(s), text: word(s) },
        5 => Patch::SetAttribute { path: path(s), name: qual(s), value: word(s) },
        6 => Patch::RemoveAttribute { path: path(s), name: qual(s) },
        7 => Patch::Move { from: NodeRef(path(s)), to: NodeRef(path(s)), detach_to_slot: slot(s) },
        8 => Patch::UpdateProps {
            path: path(s),
            changes: (0..s.n(3)).map(|_| PropChange { name: if s.n(3) == 0 { PropKey::Text } else { PropKey::Attr(qual(s)) }, value: if s.n(2) == 0 { None } else { Some(word(s)) } }).collect(),
        },
        _ => Patch::OpaqueChanged { path: path(s), content: word(s) },
    }
}
fn flat_attrs(l: &[AttrPair]) -> String {
    format!("{:?}", l.iter().map(|a| (&a.name, a.value.as_str())).collect::<Vec<_>>())
}
fn flat_content(c: &InsertContent) -> String {
    match c {
        InsertContent::Element { tag, attrs, children } => format!("el {tag:?} {} {:?}", flat_attrs(attrs), children.iter().map(flat_content).collect::<Vec<_>>()),
        InsertContent::Text(t) => format!("text {:?}", t.as_str()),
        InsertContent::Comment(t) => format!("comment {:?}", t.as_str()),
    }
}
fn flat_path(p: &NodePath) -> String {
    format!("{:?}", p.0.iter().copied().collect::<Vec<u32>>())
}
/// Everything a patch carries.
pub fn flat_patch(p: &Patch) -> String {
    match p {
        Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => {
            format!("InsertElement {} {tag:?} {} {:?} {detach_to_slot:?}", flat_path(&at.0), flat_attrs(attrs), children.iter().map(flat_content).collect::<Vec<_>>())
        }
        Patch::InsertText { at, text, detach_to_slot } => format!("InsertText {} {:?} {detach_to_slot:?}", flat_path(&at.0), text.as_str()),
        Patch::InsertComment { at, text, detach_to_slot } => format!("InsertComment {} {:?} {detach_to_slot:?}", flat_path(&at.0), text.as_str()),
        Patch::Remove { node } => format!("Remove {}", flat_path(&node.0)),
        Patch::SetText { path, text } => format!("SetText {} {:?}", flat_path(path), text.as_str()),
        Patch::SetAttribute { path, name, value } => format!("SetAttribute {} {name:?} {:?}", flat_path(path), value.as_str()),
        Patch::RemoveAttribute { path, name } => format!("RemoveAttribute {} {name:?}", flat_path(path)),
        Patch::Move { from, to, detach_to_slot } => format!("Move {} {} {detach_to_slot:?}", flat_path(&from.0), flat_path(&to.0)),
        Patch::UpdateProps { path, changes } => {
            format!("UpdateProps {} {:?}", flat_path(path), changes.iter().map(|c| (&c.name, c.value.as_ref().map(|v| v.as_str()))).collect::<Vec<_>>())
        }
        Patch::OpaqueChanged { path, content } => format!("OpaqueChanged {} {:?}", flat_path(path), content.as_str()),
    }
}
fn h06(s: &mut Src) -> Result<bool, String> {
    let p = patch(s);
    let want = flat_patch(&p);
    s.say(want.clone());
    let copy = p.clone();
    let o: Patch<'static> = p.into_owned();
    let got = flat_patch(&o);
    if got != want {
        return Err(format!("owned form is {got}"));
    }
    if o != copy || copy != o {
        return Err("the owned patch does not compare equal".into());
    }
    Ok(true)
}

// ---------------------------------------------------------------- H07
fn event(e: &Option<hotmeal_server::LiveReloadEvent>) -> String {
    format!("{e:?}")
}
fn h07(s: &mut Src) -> Result<bool, String> {
    let mut srv = hotmeal_server::LiveReloadServer::new();
    let mut html: HashMap<String, String> = HashMap::new();
    let mut head: HashMap<String, String> = HashMap::new();
    let pages = ["<p>a</p>", "<p>b</p>", "<p>a</p><p>b</p>", "<html><body><p>a</p></body></html>", "", "<div id=1>x</div>", "<p id=\"1\">a</p>"];
    let heads = ["", "h1", "h2"];
    let steps = if s.small { 3 } else { 1 + s.n(12) };
    let mut changed = false;
    for _ in 0..steps {
        let r = s.pick(if s.small { &["/", "/a"] } else { &["/", "/a", "/a/", "A"] }).to_string();
        let p = pages[s.n(if s.small { 3 } else { pages.len() as u64 }) as usize];
        let h = heads[s.n(if s.small { 2 } else { 3 }) as usize];
        let diffed = |old: &str| -> String {
            let (a, b) = (StrTendril::from(old), StrTendril::from(p));
            if old == p {
                return event(&None);
            }
            match diff_html(&a, &b) {
                Ok(v) if v.is_empty() => event(&None),
                Ok(v) => {
                    let v: Vec<Patch<'static>> = v.into_iter().map(|x| x.into_owned()).collect();
                    event(&Some(hotmeal_server::LiveReloadEvent::Patches { route: r.clone(), patches_blob: facet_postcard::to_vec(&v).unwrap() }))
                }
                Err(_) => event(&Some(hotmeal_server::LiveReloadEvent::Reload)),
            }
        };
        let submit = |html: &mut HashMap<String, String>| -> String {
            let want = match html.get(&r) {
                None => event(&Some(hotmeal_server::LiveReloadEvent::Reload)),
                Some(old) => diffed(old),
            };
            html.insert(r.clone(), p.to_string());
            want
        };
        match s.n(7) {
            0 | 1 => {
                s.say(format!("diff_route {r} {p}"));
                let want = submit(&mut html);
                let got = event(&srv.diff_route(&r, p));
                changed |= want.contains("Patches");
                if got != want {
                    return Err(format!("reported {got} instead of {want}"));
                }
            }
            2 | 3 => {
                s.say(format!("diff_route_with_head {r} {p} {h:?}"));
                let prev = head.insert(r.clone(), h.to_string()).unwrap_or_default();
                let want = if prev != h {
                    html.insert(r.clone(), p.to_string());
                    event(&Some(hotmeal_server::LiveReloadEvent::HeadChanged { route: r.clone() }))
                } else {
                    submit(&mut html)
                };
                changed |= want.contains("Patches");
                let got = event(&srv.diff_route_with_head(&r, p, h));
                if got != want {
                    return Err(format!("reported {got} instead of {want}"));
                }
            }
            4 => {
                s.say(format!("cache_html {r} {p}"));
                let want = html.insert(r.clone(), p.to_string());
                let got = srv.cache_html(&r, p);
                if got != want {
                    return Err(format!("the cached page was {got:?}, the last page submitted was {want:?}"));
                }
            }
            5 => {
                s.say(format!("remove_route {r}"));
                let want = html.remove(&r).is_some() | head.remove(&r).is_some();
                let got = srv.remove_route(&r);
                if got != want {
                    return Err(format!("remove_route answered {got}"));
                }
            }
            _ => {
                if s.n(2) == 0 {
                    s.say("clear".into());
                    html.clear();
                    head.clear();
                    srv.clear();
                } else {
                    s.say(format!("cache_head_injections {r} {h:?}"));
                    let want = head.insert(r.clone(), h.to_string()).unwrap_or_default() != h;
                    if srv.cache_head_injections(&r, h) != want {
                        return Err(format!("cache_head_injections answered {}", !want));
                    }
                }
            }
        }
        let mut a = srv.cached_routes();
        a.sort();
        let mut b: Vec<String> = html.keys().cloned().collect();
        b.sort();
        if a != b {
            return Err(format!("cached routes are {a:?}, expected {b:?}"));
        }
    }
    Ok(changed)
}

// ---------------------------------------------------------------- H02
#[derive(Clone, Debug, PartialEq)]
enum M {
    /// a node of the document as it was (by its label)
    Old(usize, Vec<M>),
    Blank,
    New,
}
fn h02(s: &mut Src) -> Result<bool, String> {
    // a document whose elements carry distinct ids
    let mut d = Document::new();
    let body = d.body().unwrap();
    let mut nodes = vec![body];
    let n = s.n(if s.small { 4 } else { 10 });
    let mut below: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..n as usize {
        let p = s.n(nodes.len() as u64) as usize;
        let x = d.create_element(format!("t{}", i + 1).as_str());
        d.append_child(nodes[p], x);
        below[p].push(i + 1);
        below.push(vec![]);
        nodes.push(x);
    }
    fn model(x: usize, below: &[Vec<usize>]) -> M {
        M::Old(x, below[x].iter().map(|&c| model(c, below)).collect())
    }
    let mut slots: HashMap<u32, NodeId> = d.init_patch_slots();
    let mut roots: Vec<(u32, M)> = vec![(0, model(0, &below))];
    // one or two operations
    let steps = 1 + s.n(if s.small { 1 } else { 4 });
    let mut used = false;
    for k in 0..steps {
        // where: a slot, a way down, a position
        let r = s.n(roots.len() as u64) as usize;
        let mut p: Vec<u32> = vec![roots[r].0];
        let mut at: &mut M = &mut roots[r].1;
        loop {
            let len = match at {
                M::Old(_, c) => c.len(),
                _ => 0,
            };
            let down = len > 0 && s.n(2) == 1;
            if !down {
                break;
            }
            let i = s.n(len as u64) as usize;
            let M::Old(_, c) = at else { unreachable!() };
            p.push(i as u32);
            at = &mut c[i];
        }
        let M::Old(_, c) = at else { return Ok(false) };
        let pos = s.n(c.len() as u64 + 3) as usize;
        p.push(pos as u32);
        let slot = if s.n(2) == 0 { None } else { Some(k as u32 + 1) };
        s.say(format!("insert at {p:?}, slot {slot:?}"));
        let patch = Patch::InsertText { at: NodeRef(NodePath(p.into_iter().collect())), text: Stem::Borrowed("new"), detach_to_slot: slot };
        let mut out = None;
        if let Some(sl) = slot {
            if pos < c.len() {
                out = Some((sl, std::mem::replace(&mut c[pos], M::New)));
            }
        }
        if out.is_none() {
            while c.len() < pos {
                c.push(M::Blank);
            }
            c.insert(pos, M::New);
        }
        if let Some(x) = out {
            used = true;
            roots.push(x);
        }
        if let Err(e) = d.apply_patch_with_slots(patch, &mut slots) {
            return Err(format!("the insertion failed: {e:?}"));
        }
        fn read(d: &Document, x: NodeId) -> M {
            match &d.get(x).kind {
                NodeKind::Element(e) => M::Old(e.tag.trim_start_matches('t').parse().unwrap_or(0), x.children(&d.arena).map(|c| read(d, c)).collect()),
                NodeKind::Text(t) if t.is_empty() => M::Blank,
                NodeKind::Text(_) => M::New,
                _ => M::Blank,
            }
        }
        for (sl, m) in &roots {
            let Some(x) = slots.get(sl) else { return Err(format!("slot {sl} has no root")) };
            let got = read(&d, *x);
            if got != *m {
                return Err(format!("slot {sl} holds {got:?}, expected {m:?}"));
            }
            if *sl != 0 && d.parent(*x).is_some() {
                return Err(format!("the root of slot {sl} still has a parent"));
            }
        }
        if slots.len() != roots.len() {
            return Err("a slot appeared that was not asked for".into());
        }
    }
    Ok(used || !used && steps > 0)
}
