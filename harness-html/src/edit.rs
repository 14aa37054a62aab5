//! H13: the document's own editing and navigation methods against a plain model.
use crate::checks::qual;
use crate::Src;
use hotmeal::*;

#[derive(Clone, PartialEq, Debug)]
enum What {
    El(String, Vec<(QualName, String)>),
    Text(String),
    Comment(String),
}
#[derive(Clone, Debug)]
struct Node {
    id: NodeId,
    what: What,
    par: Option<usize>,
    kids: Vec<usize>,
}
fn what(d: &Document, x: NodeId) -> What {
    match &d.get(x).kind {
        NodeKind::Element(e) => What::El(e.tag.as_ref().to_string(), e.attrs.iter().map(|(k, v)| (k.clone(), v.as_str().to_string())).collect()),
        NodeKind::Text(t) => What::Text(t.as_str().to_string()),
        NodeKind::Comment(t) => What::Comment(t.as_str().to_string()),
        NodeKind::Document => What::Text("#document".into()),
    }
}
fn same(d: &Document, m: &[Node], after: &str) -> Result<(), String> {
    for (i, n) in m.iter().enumerate() {
        let bad = |w: &str, got: String, want: String| Err(format!("after {after}: {w} of node {i} is {got}, should be {want}"));
        let w = what(d, n.id);
        if w != n.what {
            return bad("content", format!("{w:?}"), format!("{:?}", n.what));
        }
        if d.parent(n.id) != n.par.map(|p| m[p].id) {
            return bad("parent", format!("{:?}", d.parent(n.id)), format!("{:?}", n.par));
        }
        let ids: Vec<NodeId> = n.kids.iter().map(|k| m[*k].id).collect();
        let got: Vec<NodeId> = d.children(n.id).collect();
        if got != ids {
            return bad("children", format!("{got:?}"), format!("{ids:?}"));
        }
        if d.first_child(n.id) != ids.first().copied() || d.last_child(n.id) != ids.last().copied() || d.child_count(n.id) != ids.len() {
            return bad("first/last child or count", format!("{:?} {:?} {}", d.first_child(n.id), d.last_child(n.id), d.child_count(n.id)), format!("{ids:?}"));
        }
        for (k, id) in ids.iter().enumerate() {
            if d.next_sibling(*id) != ids.get(k + 1).copied() || d.prev_sibling(*id) != (if k > 0 { Some(ids[k - 1]) } else { None }) {
                return bad("neighbours of a child", format!("{:?} {:?}", d.prev_sibling(*id), d.next_sibling(*id)), format!("those at {k} in {ids:?}"));
            }
        }
    }
    Ok(())
}
fn above(m: &[Node], x: usize, mut y: usize) -> bool {
    loop {
        if x == y {
            return true;
        }
        match m[y].par {
            Some(p) => y = p,
            None => return false,
        }
    }
}
fn out(m: &mut [Node], x: usize) {
    if let Some(p) = m[x].par.take() {
        m[p].kids.retain(|k| *k != x);
    }
}
fn stem(s: &mut Src) -> (Stem<'static>, String) {
    let t: &'static str = ["", "a", "é<", "x y", "\u{a0}&"][s.n(if s.small { 2 } else { 5 }) as usize];
    let st: Stem<'static> = match s.n(if s.small { 2 } else { 4 }) {
        0 => t.into(),
        1 => t.to_string().into(),
        2 => StrTendril::from(t).into(),
        _ => (&StrTendril::from(t)).into(),
    };
    (st, t.to_string())
}
pub fn h13(s: &mut Src) -> Result<bool, String> {
    let (mut a, mut w) = stem(s);
    for _ in 0..s.n(3) {
        let (b, v) = stem(s);
        if s.n(2) == 0 {
            a.push_str(b.as_str());
        } else {
            a.push_tendril(&StrTendril::from(b.as_str()));
        }
        w.push_str(&v);
        if a.as_str() != w {
            return Err(format!("texts put together: {:?}, should be {w:?}", a.as_str()));
        }
    }
    let mut d = Document::new();
    let el = |t: &str| What::El(t.into(), vec![]);
    let mut m = vec![Node { id: d.root, what: el("html"), par: None, kids: vec![] }];
    let (h, b) = (d.head().ok_or("a new document has no head")?, d.body().ok_or("a new document has no body")?);
    m.push(Node { id: h, what: el("head"), par: Some(0), kids: vec![] });
    m.push(Node { id: b, what: el("body"), par: Some(0), kids: vec![] });
    m[0].kids = vec![1, 2];
    same(&d, &m, "new")?;
    let steps = s.n(if s.small { 5 } else { 16 });
    for _ in 0..steps {
        let n = m.len() as u64;
        let (x, y) = (s.n(n) as usize, s.n(n) as usize);
        let op = s.n(10);
        let name = match op {
            0 | 1 => {
                let t = s.pick(&["p", "div"]);
                let id = d.create_element(t);
                m.push(Node { id, what: el(t), par: None, kids: vec![] });
                format!("create_element {t}")
            }
            2 => {
                let (t, v) = stem(s);
                let c = s.n(2) == 0;
                let id = if c { d.create_comment(t) } else { d.create_text(t) };
                m.push(Node { id, what: if c { What::Comment(v.clone()) } else { What::Text(v.clone()) }, par: None, kids: vec![] });
                format!("create_{} {v:?}", if c { "comment" } else { "text" })
            }
            3 => {
                if above(&m, y, x) {
                    continue;
                }
                d.append_child(m[x].id, m[y].id);
                out(&mut m, y);
                m[x].kids.push(y);
                m[y].par = Some(x);
                format!("append_child {x} {y}")
            }
            4 | 5 => {
                let Some(p) = m[x].par else { continue };
                if above(&m, y, x) {
                    continue;
                }
                if op == 4 {
                    d.insert_before(m[x].id, m[y].id);
                } else {
                    d.insert_after(m[x].id, m[y].id);
                }
                out(&mut m, y);
                let i = m[p].kids.iter().position(|k| *k == x).unwrap() + (op == 5) as usize;
                m[p].kids.insert(i, y);
                m[y].par = Some(p);
                format!("insert_{} {x} {y}", if op == 4 { "before" } else { "after" })
            }
            6 => {
                d.remove(m[x].id);
                out(&mut m, x);
                format!("remove {x}")
            }
            7 => {
                let q = qual(s);
                let (t, v) = stem(s);
                let twice = s.n(4) == 3;
                if twice {
                    if let NodeKind::Element(e) = &mut d.get_mut(m[x].id).kind {
                        e.attrs.push((q.clone(), t));
                    }
                } else {
                    d.set_attr(m[x].id, q.clone(), t);
                }
                if let What::El(_, l) = &mut m[x].what {
                    match l.iter_mut().find(|k| k.0 == q) {
                        Some(k) if !twice => k.1 = v.clone(),
                        _ => l.push((q.clone(), v.clone())),
                    }
                }
                format!("set_attr {x} {q:?}={v:?}{}", if twice { " (by hand)" } else { "" })
            }
            8 => {
                let q = qual(s);
                d.remove_attr(m[x].id, &q);
                if let What::El(_, l) = &mut m[x].what {
                    l.retain(|k| k.0 != q);
                }
                format!("remove_attr {x} {q:?}")
            }
            _ => {
                let (t, v) = stem(s);
                d.set_text(m[x].id, t);
                if let What::Text(l) = &mut m[x].what {
                    *l = v.clone();
                }
                format!("set_text {x} {v:?}")
            }
        };
        s.say(name.clone());
        same(&d, &m, &name)?;
    }
    Ok(steps > 2)
}
