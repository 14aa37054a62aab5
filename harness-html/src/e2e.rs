//! H03 (and H01): from two documents through the diff to the applier.
use crate::Src;
use hotmeal::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub enum T {
    E(&'static str, Vec<(&'static str, &'static str)>, Vec<T>),
    T(&'static str),
    C(&'static str),
}
fn tree(s: &mut Src, depth: u32, budget: &mut u64, op: bool) -> T {
    let k = s.n(if depth == 0 { 2 } else { 8 });
    *budget = budget.saturating_sub(1);
    match k {
        0 => T::T(s.pick(&["a", "b", "c", ""])),
        1 if s.n(3) == 0 => T::C(s.pick(&["x", "y", ""])),
        1 => T::T(s.pick(&["a", "b", "c"])),
        _ => {
            let tag = *[&"div", &"p", &"b", &"i"][s.n(if s.small { 2 } else { 4 }) as usize];
            let mut at = vec![];
            for n in ["id", "class"] {
                if s.n(4) == 0 {
                    at.push((n, *[&"1", &"2", &"3", &""][s.n(4) as usize]));
                }
            }
            if !s.small && s.n(6) == 0 {
                at.insert(s.n(at.len() as u64 + 1) as usize, ("title", *[&"1", &"x y"][s.n(2) as usize]));
            }
            if op && s.n(5) == 0 {
                at.push(("data-hotmeal-opaque", ""));
            }
            let mut c = vec![];
            let n = s.n(if s.small { 3 } else { 4 });
            for _ in 0..n {
                if *budget > 0 {
                    c.push(tree(s, depth - 1, budget, op));
                }
            }
            T::E(tag, at, c)
        }
    }
}
fn kids(s: &mut Src, op: bool) -> Vec<T> {
    let mut b = if s.small { 4 } else { 14 };
    let n = s.n(if s.small { 3 } else { 5 });
    (0..n).map(|_| tree(s, if s.small { 2 } else { 4 }, &mut b, op)).collect()
}
fn count(t: &[T]) -> usize {
    t.iter().map(|x| match x { T::E(_, _, c) => 1 + count(c), _ => 1 }).sum()
}
/// the k-th node in document order, taken out
fn cut(t: &mut Vec<T>, k: &mut usize) -> Option<T> {
    for i in 0..t.len() {
        if *k == 0 {
            return Some(t.remove(i));
        }
        *k -= 1;
        if let T::E(_, _, c) = &mut t[i] {
            if let Some(x) = cut(c, k) {
                return Some(x);
            }
        }
    }
    None
}
/// the k-th list of children, the top one included
fn list<'x>(t: &'x mut Vec<T>, k: &mut usize) -> Option<&'x mut Vec<T>> {
    if *k == 0 {
        return Some(t);
    }
    *k -= 1;
    for x in t {
        if let T::E(_, _, c) = x {
            if let Some(l) = list(c, k) {
                return Some(l);
            }
        }
    }
    None
}
fn lists(t: &[T]) -> usize {
    1 + t.iter().map(|x| match x { T::E(_, _, c) => lists(c), _ => 0 }).sum::<usize>()
}
fn nth<'x>(t: &'x mut [T], k: &mut usize) -> Option<&'x mut T> {
    for x in t {
        if *k == 0 {
            return Some(x);
        }
        *k -= 1;
        if let T::E(_, _, c) = x {
            if let Some(y) = nth(c, k) {
                return Some(y);
            }
        }
    }
    None
}
fn put(s: &mut Src, t: &mut Vec<T>, x: T) {
    let mut k = s.n(lists(t) as u64) as usize;
    if let Some(l) = list(t, &mut k) {
        let i = s.n(l.len() as u64 + 1) as usize;
        l.insert(i, x);
    }
}
/// the same document with a few things moved about
fn edited(s: &mut Src, t: &[T], op: bool) -> Vec<T> {
    let mut t = t.to_vec();
    for _ in 0..1 + s.n(4) {
        let n = count(&t);
        match s.n(7) {
            0 => {
                let mut b = 3;
                let x = tree(s, 2, &mut b, op);
                put(s, &mut t, x);
            }
            1 if n > 0 => {
                let mut k = s.n(n as u64) as usize;
                cut(&mut t, &mut k);
            }
            2 | 3 if n > 0 => {
                let mut k = s.n(n as u64) as usize;
                if let Some(x) = cut(&mut t, &mut k) {
                    put(s, &mut t, x);
                }
            }
            4 if n > 0 => {
                // a node wraps itself around its neighbourhood, or comes off its children
                let mut k = s.n(n as u64) as usize;
                if let Some(T::E(_, _, c)) = nth(&mut t, &mut k) {
                    let c = std::mem::take(c);
                    for x in c {
                        put(s, &mut t, x);
                    }
                }
            }
            5 if n > 0 => {
                let mut k = s.n(n as u64) as usize;
                match nth(&mut t, &mut k) {
                    Some(T::T(x)) => *x = ["a", "b", "d", ""][s.n(4) as usize],
                    Some(T::C(x)) => *x = ["x", "z"][s.n(2) as usize],
                    Some(T::E(_, a, _)) => {
                        let v = ["1", "2", "4", ""][s.n(4) as usize];
                        match s.n(6) {
                            0 if a.len() > 1 => a.reverse(),
                            1 if !a.is_empty() => {
                                let i = s.n(a.len() as u64) as usize;
                                a.remove(i);
                            }
                            _ => match a.iter_mut().find(|x| x.0 == "id") {
                                Some(x) => x.1 = v,
                                None => a.insert(s.n(a.len() as u64 + 1) as usize, ("id", v)),
                            },
                        }
                    }
                    _ => {}
                }
            }
            6 if n > 0 => {
                // an element goes below one of its own descendants
                let mut k = s.n(n as u64) as usize;
                if let Some(T::E(g, a, c)) = cut(&mut t, &mut k) {
                    let mut c = c;
                    put(s, &mut c, T::E(g, a, vec![]));
                    for x in c {
                        put(s, &mut t, x);
                    }
                }
            }
            _ => {}
        }
    }
    t
}
fn grow<'a>(d: &mut Document<'a>, up: NodeId, t: &[T]) {
    for x in t {
        let y = match x {
            T::E(g, at, c) => {
                let y = d.create_element(*g);
                for (n, v) in at {
                    d.set_attr(y, QualName { prefix: None, ns: "".into(), local: (*n).into() }, Stem::Borrowed(*v));
                }
                grow(d, y, c);
                y
            }
            T::T(x) => d.create_text(Stem::Borrowed(*x)),
            T::C(x) => d.create_comment(Stem::Borrowed(*x)),
        };
        d.append_child(up, y);
    }
}
/// a body with a few attributes of its own
fn body(s: &mut Src, op: bool, c: Vec<T>) -> T {
    let mut at = vec![];
    for n in ["id", "class"] {
        if s.n(6) == 0 {
            at.push((n, *[&"1", &"2"][s.n(2) as usize]));
        }
    }
    if op && s.n(12) == 0 {
        at.push(("data-hotmeal-opaque", ""));
    }
    T::E("body", at, c)
}
fn doc<'a>(t: &T) -> Document<'a> {
    let mut d = Document::new();
    let b = d.body().unwrap();
    let T::E(_, at, c) = t else { return d };
    for (n, v) in at {
        d.set_attr(b, QualName { prefix: None, ns: "".into(), local: (*n).into() }, Stem::Borrowed(*v));
    }
    grow(&mut d, b, c);
    d
}
/// following a path by hand
fn nav(d: &Document, slots: &HashMap<u32, NodeId>, p: &[u32]) -> Option<NodeId> {
    let (s, rest) = p.split_first()?;
    let mut x = *slots.get(s)?;
    for i in rest {
        x = x.children(&d.arena).nth(*i as usize)?;
    }
    Some(x)
}
fn is_opaque(d: &Document, x: NodeId) -> bool {
    matches!(&d.get(x).kind, NodeKind::Element(e) if e.attrs.iter().any(|(q, _)| q.local.to_string() == "data-hotmeal-opaque"))
}
fn below(d: &Document, top: NodeId, x: NodeId) -> bool {
    x.ancestors(&d.arena).any(|y| y == top)
}
pub fn h03(s: &mut Src) -> Result<bool, String> {
    run(s, Way::Model)
}
pub fn h01(s: &mut Src) -> Result<bool, String> {
    run(s, Way::Written)
}
/// H12: through the real applier, every patch is accepted, and the body shows the new page.
pub fn h12(s: &mut Src) -> Result<bool, String> {
    run(s, Way::Shown)
}
enum Way {
    /// by the second telling of what patches do (apply.rs)
    Model,
    /// by the applier; what is written is compared
    Written,
    /// by the applier; the nodes are compared
    Shown,
}
/// `x` says what `y` says, has the same children first, and after them only empty texts; what is in an opaque node is not compared.
fn shows(d: &Document, x: NodeId, new: &Document, y: NodeId) -> Result<(), String> {
    let (a, b) = (d.get(x), new.get(y));
    let same = match (&a.kind, &b.kind) {
        (NodeKind::Element(e), NodeKind::Element(f)) => e.tag == f.tag && e.attrs.len() == f.attrs.len() && e.attrs.iter().zip(&f.attrs).all(|(p, q)| p.0 == q.0 && p.1.as_str() == q.1.as_str()),
        (NodeKind::Text(t), NodeKind::Text(u)) | (NodeKind::Comment(t), NodeKind::Comment(u)) => t.as_str() == u.as_str(),
        _ => false,
    };
    if !same {
        return Err(format!("{:?} is there instead of {:?}", a.kind, b.kind));
    }
    if is_opaque(new, y) {
        return Ok(());
    }
    let ka: Vec<_> = x.children(&d.arena).collect();
    let kb: Vec<_> = y.children(&new.arena).collect();
    if ka.len() < kb.len() {
        return Err(format!("{} children instead of {} in {:?}", ka.len(), kb.len(), b.kind));
    }
    for (i, k) in ka.iter().enumerate() {
        if i < kb.len() {
            shows(d, *k, new, kb[i])?;
        } else if !matches!(&d.get(*k).kind, NodeKind::Text(t) if t.as_str().is_empty()) {
            return Err(format!("{:?} is left over in {:?}", d.get(*k).kind, b.kind));
        }
    }
    Ok(())
}
/// H09: the two trees that are compared are the two pages, so the patches lead from one to the other.
pub fn h09(s: &mut Src) -> Result<bool, String> {
    run(s, Way::Model)
}
/// H10: content of opaque nodes is replaced, whole, exactly when it differs.
pub fn h10(s: &mut Src) -> Result<bool, String> {
    let (a, b) = two(s, true);
    let (old, new) = (doc(&a), doc(&b));
    s.say(format!("old: {}", old.to_html_without_doctype()));
    s.say(format!("new: {}", new.to_html_without_doctype()));
    match diff(&old, &new) {
        Ok(p) => by_model(s, &old, &new, p, true),
        Err(e) => Err(format!("the diff failed: {e:?}")),
    }
}
/// H11: a page without a body.
pub fn h11(s: &mut Src) -> Result<bool, String> {
    let (a, b) = (s.n(2) == 0, s.n(4) != 0);
    let (ca, cb) = (kids(s, false), kids(s, false));
    let mut page = |has: bool, c: Vec<T>| {
        if has {
            let t = body(s, false, c);
            return doc(&t);
        }
        let mut d = Document::new();
        let x = d.body().unwrap();
        // what would be the body's children may stand somewhere else
        if let (true, Some(h)) = (s.n(2) == 0, d.parent(x)) {
            grow(&mut d, h, &c);
        }
        d.remove(x);
        d
    };
    let (old, new) = (page(a, ca), page(b, cb));
    s.say(format!("old: {}", old.to_html_without_doctype()));
    s.say(format!("new: {}", new.to_html_without_doctype()));
    let patches = diff(&old, &new).map_err(|e| format!("the diff failed: {e:?}"))?;
    for p in &patches {
        s.say(crate::checks::flat_patch(p));
    }
    if a && b {
        return by_model(s, &old, &new, patches, false);
    }
    let n = |d: &Document| d.body().map_or(0, |b| b.children(&d.arena).count());
    let want = if b { n(&new) } else if a { n(&old) } else { 0 };
    if patches.len() != want {
        return Err(format!("{} patches, expected {want}", patches.len()));
    }
    for (i, p) in patches.iter().enumerate() {
        let ok = match p {
            Patch::InsertElement { at, detach_to_slot, .. } | Patch::InsertText { at, detach_to_slot, .. } | Patch::InsertComment { at, detach_to_slot, .. } => b && detach_to_slot.is_none() && at.0.0[..] == [0, i as u32],
            Patch::Remove { node } => a && node.0.0[..] == [0, (want - 1 - i) as u32],
            _ => false,
        };
        if !ok {
            return Err(format!("patch {i} is {}", crate::checks::flat_patch(p)));
        }
    }
    if b {
        // on an empty body they make the new page's body
        let empty = Document::new();
        let mut m = crate::apply::model(crate::apply::seen(&empty, empty.body().unwrap()));
        for p in &patches {
            if m.apply(p) != Some(true) {
                return Err(format!("a patch leads nowhere: {}", crate::checks::flat_patch(p)));
            }
        }
        let (x, y) = (m.body().1, crate::apply::seen(&new, new.body().unwrap()).1);
        if x != y {
            return Err(format!("the patches lead to {x:?}"));
        }
    }
    Ok(!patches.is_empty())
}
/// The patches, followed by the second telling of what patches do (apply.rs): every path leads to a node of the
/// right sort, no node moves below itself, and what comes out is the new page.
fn by_model(s: &mut Src, old: &Document, new: &Document, patches: Vec<Patch>, exact: bool) -> Result<bool, String> {
    use crate::apply::{model, norm, seen};
    let pages = [seen(old, old.body().unwrap()), seen(new, new.body().unwrap())];
    let mut m = model(pages[0].clone());
    let marked = m.marked();
    // (texts side by side are one text in what is written)
    let exact = exact && pages.iter().all(|p| norm(p.clone()) == *p);
    let some = !patches.is_empty();
    for p in patches {
        s.say(crate::checks::flat_patch(&p));
        if let Patch::OpaqueChanged { path, .. } = &p {
            if !m.opaque(path) {
                return Err("new opaque content is not for an opaque node".into());
            }
            if exact && m.same_content(path, &p) == Some(true) && m.node(path).is_some_and(|x| marked.contains(&x)) {
                return Err("an opaque node gets the content it has".into());
            }
        }
        match m.apply(&p) {
            None => return Err("a move goes below itself".into()),
            Some(false) => return Err(format!("a path leads nowhere, or to a node of the wrong sort: {}", crate::checks::flat_patch(&p))),
            Some(true) => {}
        }
    }
    let (x, y) = (norm(m.body()), norm(seen(new, new.body().unwrap())));
    if x != y {
        return Err(format!("the patches lead to {x:?}"));
    }
    Ok(some)
}
fn two(s: &mut Src, op: bool) -> (T, T) {
    let a = kids(s, op);
    let b = if s.n(3) == 0 { kids(s, op) } else { edited(s, &a, op) };
    // now and then a very long list of siblings
    let (a, b) = if s.n(120) == 119 {
        let k = *[&40, &300, &700][s.n(3) as usize];
        let pad = |v: Vec<T>| (0..k).map(|_| T::E("p", vec![], vec![])).chain(v).collect::<Vec<T>>();
        (pad(a), pad(b))
    } else {
        (a, b)
    };
    let whole_a = body(s, op, a.clone());
    let whole_b = if s.n(3) == 0 { body(s, op, b.clone()) } else { T::E("body", match &whole_a { T::E(_, x, _) => x.clone(), _ => vec![] }, b.clone()) };
    (whole_a, whole_b)
}
fn run(s: &mut Src, way: Way) -> Result<bool, String> {
    let op = s.n(3) == 0;
    let (whole_a, whole_b) = two(s, op);
    let old = doc(&whole_a);
    let new = doc(&whole_b);
    s.say(format!("old: {}", old.to_html_without_doctype()));
    s.say(format!("new: {}", new.to_html_without_doctype()));
    let patches = match diff(&old, &new) {
        Ok(p) => p,
        Err(e) => return Err(format!("the diff failed: {e:?}")),
    };
    if let Way::Model = way {
        return by_model(s, &old, &new, patches, false);
    }
    let again = patches.clone();
    let mut d = doc(&whole_a);
    let first = d.body().unwrap();
    let hung = d.parent(first);
    let mut slots = d.init_patch_slots();
    let some = !patches.is_empty();
    for p in patches {
        s.say(crate::checks::flat_patch(&p));
        let v = |p: &NodePath| p.0.iter().copied().collect::<Vec<u32>>();
        let missing = |d: &Document, p: &NodePath| nav(d, &slots, &v(p)).is_none();
        match &p {
            Patch::Remove { node } if missing(&d, &node.0) => return Err("a removal's path leads nowhere".into()),
            Patch::SetText { path, .. } => match nav(&d, &slots, &v(path)) {
                None => return Err("a text change's path leads nowhere".into()),
                Some(x) => {
                    if !matches!(d.get(x).kind, NodeKind::Text(_) | NodeKind::Comment(_)) {
                        return Err("a text change's path leads to an element".into());
                    }
                }
            },
            Patch::UpdateProps { path, .. } => match nav(&d, &slots, &v(path)) {
                None => return Err("a property update's path leads nowhere".into()),
                Some(_) => {}
            },
            Patch::Move { from, to, .. } => match nav(&d, &slots, &v(&from.0)) {
                None => return Err("a move's source leads nowhere".into()),
                Some(x) => {
                    let t = v(&to.0);
                    if let Some(y) = nav(&d, &slots, &t[..t.len() - 1]) {
                        if below(&d, x, y) {
                            return Err("a move goes below itself".into());
                        }
                    }
                }
            },
            Patch::OpaqueChanged { path, .. } => match nav(&d, &slots, &v(path)) {
                None => return Err("new opaque content leads nowhere".into()),
                Some(x) => {
                    if !is_opaque(&d, x) {
                        return Err("new opaque content is for a node that is not opaque".into());
                    }
                }
            },
            _ => {}
        }
        if let Err(e) = d.apply_patch_with_slots(p, &mut slots) {
            return Err(format!("applying it failed: {e:?}"));
        }
    }
    if let Way::Written = way {
        let of = |d: &Document| { let h = d.to_html_without_doctype(); h[h.find("<body").unwrap_or(0)..].to_string() };
        let (x, y) = (of(&d), of(&new));
        if x != y {
            return Err(format!("the result is {x}"));
        }
    }
    if let Way::Shown = way {
        shows(&d, first, &new, new.body().unwrap())?;
        if d.body() != Some(first) || d.parent(first) != hung {
            return Err("the body is not where it was".into());
        }
        // the same, all patches at once
        let mut e = doc(&whole_a);
        let b = e.body().unwrap();
        if let Err(x) = e.apply_patches(again) {
            return Err(format!("applying them all failed: {x:?}"));
        }
        shows(&e, b, &new, new.body().unwrap())?;
    }
    Ok(some)
}
