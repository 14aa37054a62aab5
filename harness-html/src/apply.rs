//! H08: what each patch does, told a second time over a plain arena of our own.
use crate::checks::{attrs, content, patch, qual, word};
use crate::Src;
use hotmeal::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Says {
    Element(String, Vec<(QualName, String)>),
    Text(String),
    Comment(String),
}
#[derive(Clone, Debug)]
struct N {
    says: Says,
    kids: Vec<usize>,
    up: Option<usize>,
}
#[derive(Clone)]
pub struct Model {
    n: Vec<N>,
    slots: HashMap<u32, usize>,
}
/// A tree as it can be read off a node.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen(pub Says, pub Vec<Seen>);

fn blank() -> Says {
    Says::Text(String::new())
}
/// A model of one tree.
pub fn model(t: Seen) -> Model {
    let mut m = Model { n: vec![], slots: HashMap::new() };
    m.plant(t, None);
    m.slots.insert(0, 0);
    m
}
/// Texts that stand next to each other read as one, empty ones not at all.
pub fn norm(t: Seen) -> Seen {
    let mut out: Vec<Seen> = vec![];
    for c in t.1 {
        let c = norm(c);
        match (out.last_mut(), &c.0) {
            (_, Says::Text(x)) if x.is_empty() => {}
            (Some(Seen(Says::Text(y), _)), Says::Text(x)) => y.push_str(x),
            _ => out.push(c),
        }
    }
    Seen(t.0, out)
}
impl Model {
    fn plant(&mut self, t: Seen, up: Option<usize>) -> usize {
        let x = self.add(t.0, up);
        for c in t.1 {
            self.plant(c, Some(x));
        }
        x
    }
    pub fn body(&self) -> Seen {
        self.seen(0)
    }
    pub fn opaque(&self, p: &NodePath) -> bool {
        let p: Vec<u32> = p.0.iter().copied().collect();
        match self.nav(&p).map(|x| &self.n[x].says) {
            Some(Says::Element(_, at)) => at.iter().any(|a| a.0.local.to_string() == "data-hotmeal-opaque"),
            _ => false,
        }
    }
    pub fn node(&self, p: &NodePath) -> Option<usize> {
        self.nav(&p.0.iter().copied().collect::<Vec<u32>>())
    }
    /// The opaque nodes.
    pub fn marked(&self) -> Vec<usize> {
        (0..self.n.len()).filter(|&x| matches!(&self.n[x].says, Says::Element(_, at) if at.iter().any(|a| a.0.local.to_string() == "data-hotmeal-opaque"))).collect()
    }
    /// Would this patch put the content there that is there?
    pub fn same_content(&self, at: &NodePath, p: &Patch) -> Option<bool> {
        let x = self.node(at)?;
        let mut then = self.clone();
        then.apply(p)?;
        Some(self.seen(x) == then.seen(x))
    }
    fn add(&mut self, says: Says, up: Option<usize>) -> usize {
        self.n.push(N { says, kids: vec![], up });
        let x = self.n.len() - 1;
        if let Some(p) = up {
            self.n[p].kids.push(x);
        }
        x
    }
    fn seen(&self, x: usize) -> Seen {
        Seen(self.n[x].says.clone(), self.n[x].kids.iter().map(|&c| self.seen(c)).collect())
    }
    fn nav(&self, p: &[u32]) -> Option<usize> {
        let (s, rest) = p.split_first()?;
        let mut x = *self.slots.get(s)?;
        for i in rest {
            x = *self.n[x].kids.get(*i as usize)?;
        }
        Some(x)
    }
    fn place(&self, p: &[u32]) -> Option<(usize, usize)> {
        if p.len() < 2 {
            return None;
        }
        Some((self.nav(&p[..p.len() - 1])?, p[p.len() - 1] as usize))
    }
    fn under(&self, top: usize, mut x: usize) -> bool {
        loop {
            if x == top {
                return true;
            }
            match self.n[x].up {
                Some(u) => x = u,
                None => return false,
            }
        }
    }
    fn lift(&mut self, x: usize, leave_blank: bool) {
        if let Some(u) = self.n[x].up.take() {
            let i = self.n[u].kids.iter().position(|&c| c == x).unwrap();
            if leave_blank {
                let e = self.add(blank(), None);
                self.n[e].up = Some(u);
                self.n[u].kids[i] = e;
            } else {
                self.n[u].kids.remove(i);
            }
        }
    }
    fn put(&mut self, (p, pos): (usize, usize), x: usize, slot: Option<u32>) {
        self.n[x].up = Some(p);
        if let Some(s) = slot {
            if pos < self.n[p].kids.len() {
                let d = std::mem::replace(&mut self.n[p].kids[pos], x);
                self.n[d].up = None;
                self.slots.insert(s, d);
                return;
            }
        }
        while self.n[p].kids.len() < pos {
            self.add(blank(), Some(p));
        }
        self.n[p].kids.insert(pos, x);
    }
    fn grow(&mut self, c: &InsertContent, up: Option<usize>) -> usize {
        match c {
            InsertContent::Element { tag, attrs, children } => {
                let x = self.add(Says::Element(tag.to_string(), pairs(attrs)), up);
                for c in children {
                    self.grow(c, Some(x));
                }
                x
            }
            InsertContent::Text(t) => self.add(Says::Text(t.as_str().to_string()), up),
            InsertContent::Comment(t) => self.add(Says::Comment(t.as_str().to_string()), up),
        }
    }
    /// None: the patch would put a node below itself. Some(ok).
    pub fn apply(&mut self, p: &Patch) -> Option<bool> {
        let v = |p: &NodePath| p.0.iter().copied().collect::<Vec<u32>>();
        match p {
            Patch::InsertElement { at, tag, attrs, children, detach_to_slot } => {
                let Some(w) = self.place(&v(&at.0)) else { return Some(false) };
                let x = self.grow(&InsertContent::Element { tag: tag.clone(), attrs: attrs.clone(), children: children.clone() }, None);
                self.put(w, x, *detach_to_slot);
            }
            Patch::InsertText { at, text, detach_to_slot } => {
                let Some(w) = self.place(&v(&at.0)) else { return Some(false) };
                let x = self.add(Says::Text(text.as_str().to_string()), None);
                self.put(w, x, *detach_to_slot);
            }
            Patch::InsertComment { at, text, detach_to_slot } => {
                let Some(w) = self.place(&v(&at.0)) else { return Some(false) };
                let x = self.add(Says::Comment(text.as_str().to_string()), None);
                self.put(w, x, *detach_to_slot);
            }
            Patch::Remove { node } => {
                let Some(x) = self.nav(&v(&node.0)) else { return Some(false) };
                self.lift(x, true);
            }
            Patch::SetText { path, text } => {
                let Some(x) = self.nav(&v(path)) else { return Some(false) };
                match &mut self.n[x].says {
                    Says::Text(t) | Says::Comment(t) => *t = text.as_str().to_string(),
                    _ => return Some(false),
                }
            }
            Patch::SetAttribute { path, name, value } => {
                let Some(x) = self.nav(&v(path)) else { return Some(false) };
                let Says::Element(_, at) = &mut self.n[x].says else { return Some(false) };
                match at.iter_mut().find(|a| a.0 == *name) {
                    Some(a) => a.1 = value.as_str().to_string(),
                    None => at.push((name.clone(), value.as_str().to_string())),
                }
            }
            Patch::RemoveAttribute { path, name } => {
                let Some(x) = self.nav(&v(path)) else { return Some(false) };
                let Says::Element(_, at) = &mut self.n[x].says else { return Some(false) };
                at.retain(|a| a.0 != *name);
            }
            Patch::Move { from, to, detach_to_slot } => {
                let (from, to) = (v(&from.0), v(&to.0));
                let Some(x) = self.nav(&from) else { return Some(false) };
                self.lift(x, from.len() > 1);
                let Some(w) = self.place(&to) else { return Some(false) };
                if self.under(x, w.0) {
                    return None;
                }
                self.put(w, x, *detach_to_slot);
            }
            Patch::UpdateProps { path, changes } => {
                let Some(x) = self.nav(&v(path)) else { return Some(false) };
                match &mut self.n[x].says {
                    Says::Element(_, at) => {
                        let old = at.clone();
                        *at = changes
                            .iter()
                            .filter_map(|c| match &c.name {
                                PropKey::Text => None,
                                PropKey::Attr(q) => Some((
                                    q.clone(),
                                    match &c.value {
                                        Some(v) => v.as_str().to_string(),
                                        None => old.iter().find(|a| a.0 == *q).map(|a| a.1.clone()).unwrap_or_default(),
                                    },
                                )),
                            })
                            .collect();
                    }
                    Says::Text(t) | Says::Comment(t) => {
                        if let Some(v) = changes.iter().find(|c| c.name == PropKey::Text).and_then(|c| c.value.as_ref()) {
                            *t = v.as_str().to_string();
                        }
                    }
                }
            }
            Patch::OpaqueChanged { path, content } => {
                let Some(x) = self.nav(&v(path)) else { return Some(false) };
                for c in std::mem::take(&mut self.n[x].kids) {
                    self.n[c].up = None;
                }
                // the contents used here
                match content.as_str() {
                    "" => {}
                    "<b>x</b>y" => {
                        let b = self.add(Says::Element("b".into(), vec![]), Some(x));
                        self.add(Says::Text("x".into()), Some(b));
                        self.add(Says::Text("y".into()), Some(x));
                    }
                    t if !t.contains(['<', '&']) => {
                        self.add(Says::Text(t.to_string()), Some(x));
                    }
                    t => {
                        let t = StrTendril::from(format!("<body>{t}</body>").as_str());
                        let d = parse(&t);
                        if let Some(b) = d.body() {
                            for c in seen(&d, b).1 {
                                self.plant(c, Some(x));
                            }
                        }
                    }
                }
            }
        }
        Some(true)
    }
}
fn pairs(l: &[AttrPair]) -> Vec<(QualName, String)> {
    l.iter().map(|a| (a.name.clone(), a.value.as_str().to_string())).collect()
}
pub fn seen(d: &Document, x: NodeId) -> Seen {
    let says = match &d.get(x).kind {
        NodeKind::Element(e) => Says::Element(e.tag.to_string(), e.attrs.iter().map(|(q, v)| (q.clone(), v.as_str().to_string())).collect()),
        NodeKind::Text(t) => Says::Text(t.as_str().to_string()),
        NodeKind::Comment(t) => Says::Comment(t.as_str().to_string()),
        NodeKind::Document => Says::Text("the document".into()),
    };
    Seen(says, x.children(&d.arena).map(|c| seen(d, c)).collect())
}
/// Does `x` stand in the list of its parent, exactly once?
fn hung(d: &Document, x: NodeId) -> bool {
    d.parent(x).is_none_or(|p| p.children(&d.arena).filter(|&c| c == x).count() == 1) && x.children(&d.arena).all(|c| d.parent(c) == Some(x) && hung(d, c))
}
/// A path that exists, most of the time.
fn way(s: &mut Src, m: &Model, place: bool) -> NodePath {
    let mut slots: Vec<u32> = m.slots.keys().copied().collect();
    slots.sort();
    let k = slots[s.n(slots.len() as u64) as usize];
    let mut p = vec![k];
    let mut x = m.slots[&k];
    while !m.n[x].kids.is_empty() && s.n(3) != 0 {
        let i = s.n(m.n[x].kids.len() as u64) as usize;
        p.push(i as u32);
        x = m.n[x].kids[i];
    }
    if place {
        p.push(s.n(m.n[x].kids.len() as u64 + 3) as u32);
    }
    match s.n(12) {
        0 => p.push(s.n(4) as u32),
        1 => {
            p.pop();
        }
        2 if !s.small => p[0] = s.n(4) as u32,
        _ => {}
    }
    NodePath(p.into_iter().collect())
}
/// A patch whose paths mostly lead somewhere.
fn aimed<'a>(s: &mut Src, m: &Model) -> Patch<'a> {
    let mut p = patch(s);
    match &mut p {
        Patch::InsertElement { at, .. } | Patch::InsertText { at, .. } | Patch::InsertComment { at, .. } => at.0 = way(s, m, true),
        Patch::Remove { node } => node.0 = way(s, m, false),
        Patch::SetText { path, .. } | Patch::SetAttribute { path, .. } | Patch::RemoveAttribute { path, .. } => *path = way(s, m, false),
        Patch::UpdateProps { path, changes } => {
            *path = way(s, m, false);
            // mention the attributes that are there
            if s.n(3) != 0 {
                if let Some(Says::Element(_, at)) = m.nav(&path.0.iter().copied().collect::<Vec<_>>()).map(|x| &m.n[x].says) {
                    for (q, _) in at {
                        if s.n(2) == 0 {
                            changes.insert(s.n(changes.len() as u64 + 1) as usize, PropChange { name: PropKey::Attr(q.clone()), value: if s.n(2) == 0 { None } else { Some(word(s)) } });
                        }
                    }
                }
            }
        }
        Patch::Move { from, to, .. } => {
            from.0 = way(s, m, false);
            to.0 = way(s, m, true);
        }
        Patch::OpaqueChanged { path, content } => {
            *path = way(s, m, false);
            *content = Stem::Borrowed(["", "plain", "<b>x</b>y"][s.n(3) as usize]);
        }
    }
    p
}
pub fn h08(s: &mut Src) -> Result<bool, String> {
    let mut d = Document::new();
    let mut m = Model { n: vec![], slots: HashMap::new() };
    let root = d.root;
    let had_body = s.n(6) != 0;
    let mut nodes = vec![];
    if let Some(b) = d.body() {
        if had_body {
            nodes.push((b, m.add(Says::Element("body".into(), vec![]), None)));
        } else {
            d.remove(b);
        }
    }
    if had_body {
        for _ in 0..s.n(if s.small { 4 } else { 12 }) {
            let (dp, mp) = nodes[s.n(nodes.len() as u64) as usize];
            let (x, y) = match content(s, 0) {
                InsertContent::Element { .. } => {
                    let t = s.pick(&["div", "p", "body", "x-y"]);
                    let x = d.create_element(t);
                    let mut l = vec![];
                    for a in attrs(s) {
                        if l.iter().all(|(q, _): &(QualName, String)| *q != a.name) {
                            d.set_attr(x, a.name.clone(), Stem::Owned(a.value.as_str().into()));
                            l.push((a.name, a.value.as_str().to_string()));
                        }
                    }
                    let y = m.add(Says::Element(t.into(), l), Some(mp));
                    nodes.push((x, y));
                    (x, y)
                }
                InsertContent::Text(t) => (d.create_text(Stem::Owned(t.as_str().into())), m.add(Says::Text(t.as_str().into()), Some(mp))),
                InsertContent::Comment(t) => (d.create_comment(Stem::Owned(t.as_str().into())), m.add(Says::Comment(t.as_str().into()), Some(mp))),
            };
            d.append_child(dp, x);
            let _ = y;
        }
    } else {
        m.add(Says::Element("body".into(), vec![]), None);
    }
    m.slots.insert(0, 0);
    s.say(format!("body {:?}", m.seen(0)));
    let around: Vec<Seen> = root.children(&d.arena).filter(|&c| Some(c) != d.body()).map(|c| seen(&d, c)).collect();
    let steps = 1 + s.n(if s.small { 1 } else { 4 });
    let whole = s.n(3) == 0;
    let mut list = vec![];
    let mut ok = true;
    let mut slots = if whole { HashMap::new() } else { d.init_patch_slots() };
    let empty = whole && s.n(8) == 0;
    if empty {
        s.say("no patches at all".into());
        return match d.apply_patches(vec![]) {
            Ok(()) if d.body().is_some() == had_body => Ok(true),
            _ => Err("an empty list of patches did something".into()),
        };
    }
    for _ in 0..steps {
        let p = aimed(s, &m);
        s.say(crate::checks::flat_patch(&p));
        let before = m.clone();
        match m.apply(&p) {
            // not a patch anybody may send
            None => {
                m = before;
                continue;
            }
            Some(o) => ok = o,
        }
        if whole {
            list.push(p);
            if !ok {
                break;
            }
            continue;
        }
        let got = d.apply_patch_with_slots(p, &mut slots).is_ok();
        if got != ok {
            return Err(format!("applying it {}", if got { "succeeded" } else { "failed" }));
        }
        compare(&d, &m, Some(&slots))?;
    }
    if whole && !list.is_empty() {
        let got = d.apply_patches(list).is_ok();
        if got != ok {
            return Err(format!("applying the list {}", if got { "succeeded" } else { "failed" }));
        }
        compare(&d, &m, None)?;
    } else if whole {
        return Ok(false);
    }
    // the rest of the document; the body itself may have been moved away
    if d.body().is_some() && m.n[0].up.is_none() {
        let now: Vec<Seen> = root.children(&d.arena).filter(|&c| Some(c) != d.body()).map(|c| seen(&d, c)).collect();
        if m.n[0].says == Says::Element("body".into(), vec![]) && now.len() == around.len() && now != around {
            return Err("nodes outside the body changed".into());
        }
    }
    let _ = qual;
    Ok(true)
}
fn compare(d: &Document, m: &Model, slots: Option<&HashMap<u32, NodeId>>) -> Result<(), String> {
    match slots {
        Some(l) => {
            if l.len() != m.slots.len() {
                return Err("the slots in use differ".into());
            }
            for (k, &y) in &m.slots {
                let Some(&x) = l.get(k) else { return Err(format!("slot {k} has no root")) };
                let (a, b) = (seen(d, x), m.seen(y));
                if a != b {
                    return Err(format!("slot {k} holds {a:?}, expected {b:?}"));
                }
                if !hung(d, x) {
                    return Err(format!("the tree in slot {k} is torn"));
                }
                // (the body hangs below the root of the document)
                if y != 0 && d.parent(x).is_some() != m.n[y].up.is_some() {
                    return Err(format!("the root of slot {k} has the wrong parent"));
                }
            }
        }
        None => {
            // the body, if it stayed in place
            if m.n[0].up.is_none() {
                if let Some(x) = d.body() {
                    let (a, b) = (seen(d, x), m.seen(0));
                    if a != b {
                        return Err(format!("the body holds {a:?}, expected {b:?}"));
                    }
                }
            }
        }
    }
    Ok(())
}
