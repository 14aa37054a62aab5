//! Stand-in for html5ever: the types the code under check uses, and a small HTML parser (tags,
//! attributes, text, comments, doctype, entities, void and raw-text elements, implied
//! html/head/body). It drives the same TreeSink interface.
use std::borrow::Cow;
use std::sync::Arc;
pub use tendril;
use tendril::StrTendril;

macro_rules! atom {
    ($n:ident) => {
        #[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub struct $n(Arc<str>);
        impl std::ops::Deref for $n { type Target = str; fn deref(&self) -> &str { &self.0 } }
        impl AsRef<str> for $n { fn as_ref(&self) -> &str { &self.0 } }
        impl<'a> From<&'a str> for $n { fn from(s: &'a str) -> Self { $n(s.into()) } }
        impl From<String> for $n { fn from(s: String) -> Self { $n(s.into()) } }
        impl<'a> From<Cow<'a, str>> for $n { fn from(s: Cow<'a, str>) -> Self { $n(s.into()) } }
        impl Default for $n { fn default() -> Self { $n("".into()) } }
        impl std::fmt::Debug for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Debug::fmt(&*self.0, f) } }
        impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    };
}
atom!(LocalName);
atom!(Namespace);
atom!(Prefix);
#[macro_export]
macro_rules! local_name { ($s:expr) => { $crate::LocalName::from($s) } }
#[macro_export]
macro_rules! namespace_url { ($s:expr) => { $crate::Namespace::from($s) } }
#[macro_export]
macro_rules! ns {
    () => { $crate::Namespace::from("") };
    (html) => { $crate::Namespace::from("http://www.w3.org/1999/xhtml") };
    (svg) => { $crate::Namespace::from("http://www.w3.org/2000/svg") };
    (mathml) => { $crate::Namespace::from("http://www.w3.org/1998/Math/MathML") };
    (xlink) => { $crate::Namespace::from("http://www.w3.org/1999/xlink") };
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct QualName { pub prefix: Option<Prefix>, pub ns: Namespace, pub local: LocalName }
impl QualName {
    pub fn new(prefix: Option<Prefix>, ns: Namespace, local: LocalName) -> Self { QualName { prefix, ns, local } }
}
#[derive(Clone, Debug)]
pub struct Attribute { pub name: QualName, pub value: StrTendril }

pub mod tree_builder {
    use super::*;
    pub trait ElemName: std::fmt::Debug {
        fn ns(&self) -> &Namespace;
        fn local_name(&self) -> &LocalName;
    }
    #[derive(Default)]
    pub struct ElementFlags { pub template: bool }
    pub enum NodeOrText<H> { AppendNode(H), AppendText(StrTendril) }
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum QuirksMode { Quirks, LimitedQuirks, NoQuirks }
    pub trait TreeSink {
        type Handle: Clone;
        type Output;
        type ElemName<'a>: ElemName where Self: 'a;
        fn finish(self) -> Self::Output;
        fn parse_error(&self, msg: Cow<'static, str>);
        fn get_document(&self) -> Self::Handle;
        fn elem_name<'a>(&'a self, target: &'a Self::Handle) -> Self::ElemName<'a>;
        fn create_element(&self, name: QualName, attrs: Vec<Attribute>, flags: ElementFlags) -> Self::Handle;
        fn create_comment(&self, text: StrTendril) -> Self::Handle;
        fn create_pi(&self, target: StrTendril, data: StrTendril) -> Self::Handle;
        fn append(&self, parent: &Self::Handle, child: NodeOrText<Self::Handle>);
        fn append_based_on_parent_node(&self, element: &Self::Handle, prev_element: &Self::Handle, child: NodeOrText<Self::Handle>);
        fn append_doctype_to_document(&self, name: StrTendril, public_id: StrTendril, system_id: StrTendril);
        fn get_template_contents(&self, target: &Self::Handle) -> Self::Handle;
        fn same_node(&self, x: &Self::Handle, y: &Self::Handle) -> bool;
        fn set_quirks_mode(&self, mode: QuirksMode);
        fn append_before_sibling(&self, sibling: &Self::Handle, new_node: NodeOrText<Self::Handle>);
        fn add_attrs_if_missing(&self, target: &Self::Handle, attrs: Vec<Attribute>);
        fn remove_from_parent(&self, target: &Self::Handle);
        fn reparent_children(&self, node: &Self::Handle, new_parent: &Self::Handle);
    }
}
use tree_builder::*;

#[derive(Default)]
pub struct ParseOpts;
pub struct Parser<S> { sink: S, fragment: bool }
pub fn parse_document<S: TreeSink>(sink: S, _: ParseOpts) -> Parser<S> { Parser { sink, fragment: false } }
pub fn parse_fragment<S: TreeSink>(sink: S, _: ParseOpts, _: QualName, _: Vec<Attribute>, _: bool) -> Parser<S> { Parser { sink, fragment: true } }

const VOID: &[&str] = &["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];
const RAW: &[&str] = &["script", "style", "noscript"];
const HEAD: &[&str] = &["title", "meta", "link", "base"];

fn qual(name: &str) -> QualName { QualName::new(None, ns!(html), LocalName::from(name)) }
fn attr(name: &str, v: String) -> Attribute {
    Attribute { name: QualName::new(None, ns!(), LocalName::from(name)), value: StrTendril::from(v) }
}
fn decode(s: &str) -> String {
    let mut o = String::new();
    let mut r = s;
    while let Some(i) = r.find('&') {
        o.push_str(&r[..i]);
        r = &r[i..];
        let mut hit = false;
        for (e, c) in [("&amp;", "&"), ("&lt;", "<"), ("&gt;", ">"), ("&quot;", "\""), ("&nbsp;", "\u{a0}")] {
            if let Some(x) = r.strip_prefix(e) {
                o.push_str(c);
                r = x;
                hit = true;
                break;
            }
        }
        if !hit { o.push('&'); r = &r[1..]; }
    }
    o.push_str(r);
    o
}

/// A call of the sink, for driving it without the parser. Nodes are numbered: 0 is the document,
/// every node made by the script gets the next number.
#[derive(Clone, Debug)]
pub enum Call {
    Element(QualName, Vec<Attribute>),
    Comment(StrTendril),
    Pi,
    Append(usize, NodeOr),
    Before(usize, NodeOr),
    Based(usize, usize, NodeOr),
    AddAttrs(usize, Vec<Attribute>),
    Remove(usize),
    Reparent(usize, usize),
    Doctype(StrTendril),
    Error(String),
}
#[derive(Clone, Debug)]
pub enum NodeOr { Node(usize), Text(StrTendril) }
thread_local! {
    /// what the next parse on this thread asks of its sink instead of parsing, given its input
    pub static SCRIPT: std::cell::RefCell<Option<Box<dyn FnOnce(&StrTendril) -> Vec<Call>>>> = const { std::cell::RefCell::new(None) };
    /// namespace and local name the sink reported for every node after the script
    pub static NAMES: std::cell::RefCell<Vec<(String, String)>> = const { std::cell::RefCell::new(Vec::new()) };
}
fn play<S: TreeSink>(sink: S, calls: Vec<Call>) -> S::Output {
    let mut h = vec![sink.get_document()];
    let put = |h: &[S::Handle], n: NodeOr| match n { NodeOr::Node(i) => NodeOrText::AppendNode(h[i].clone()), NodeOr::Text(t) => NodeOrText::AppendText(t) };
    for c in calls {
        match c {
            Call::Element(q, a) => h.push(sink.create_element(q, a, ElementFlags::default())),
            Call::Comment(t) => h.push(sink.create_comment(t)),
            Call::Pi => h.push(sink.create_pi(StrTendril::from("xml"), StrTendril::from("x"))),
            Call::Append(p, n) => sink.append(&h[p], put(&h, n)),
            Call::Before(p, n) => sink.append_before_sibling(&h[p], put(&h, n)),
            Call::Based(e, p, n) => sink.append_based_on_parent_node(&h[e], &h[p], put(&h, n)),
            Call::AddAttrs(x, a) => sink.add_attrs_if_missing(&h[x], a),
            Call::Remove(x) => sink.remove_from_parent(&h[x]),
            Call::Reparent(x, y) => sink.reparent_children(&h[x], &h[y]),
            Call::Doctype(t) => sink.append_doctype_to_document(t, StrTendril::from(""), StrTendril::from("")),
            Call::Error(m) => sink.parse_error(Cow::Owned(m)),
        }
        sink.set_quirks_mode(QuirksMode::NoQuirks);
    }
    let names = h.iter().map(|x| { let e = sink.elem_name(x); (e.ns().to_string(), e.local_name().to_string()) }).collect();
    NAMES.with(|n| *n.borrow_mut() = names);
    for (i, x) in h.iter().enumerate() {
        for (j, y) in h.iter().enumerate() { assert_eq!(sink.same_node(x, y), i == j, "same_node of {i} and {j}"); }
        assert!(sink.same_node(&sink.get_template_contents(x), x), "template contents of {i}");
    }
    sink.finish()
}
/// the part of the text `all` that `s` is
fn part(all: &StrTendril, s: &str) -> StrTendril { all.subtendril((s.as_ptr() as usize - all.as_ptr() as usize) as u32, s.len() as u32) }

impl<S: TreeSink> tendril::TendrilSink for Parser<S> {
    type Output = S::Output;
    fn one(self, t: StrTendril) -> S::Output {
        let sink = self.sink;
        if let Some(f) = SCRIPT.with(|s| s.borrow_mut().take()) { return play(sink, f(&t)); }
        let doc = sink.get_document();
        let mk = |n: &str, a: Vec<Attribute>| sink.create_element(qual(n), a, ElementFlags::default());
        let mut html: Option<S::Handle> = None;
        let mut head: Option<S::Handle> = None;
        let mut body: Option<S::Handle> = None;
        let mut stack: Vec<(String, S::Handle)> = vec![];
        let s: &str = &t;
        let mut r = s;
        macro_rules! need_html { ($a:expr) => { if html.is_none() { let h = mk("html", $a); sink.append(&doc, NodeOrText::AppendNode(h.clone())); html = Some(h); } } }
        macro_rules! need_head { ($a:expr) => { need_html!(vec![]); if head.is_none() { let h = mk("head", $a); sink.append(html.as_ref().unwrap(), NodeOrText::AppendNode(h.clone())); head = Some(h); } } }
        macro_rules! need_body { ($a:expr) => { need_head!(vec![]); if body.is_none() { let h = mk("body", $a); sink.append(html.as_ref().unwrap(), NodeOrText::AppendNode(h.clone())); stack.clear(); stack.push(("body".into(), h.clone())); body = Some(h); } } }
        if self.fragment {
            need_html!(vec![]);
            stack.push(("html".into(), html.clone().unwrap()));
            body = html.clone();
            head = html.clone();
        }
        while !r.is_empty() {
            if let Some(x) = r.strip_prefix("<!--") {
                let (c, rest) = match x.find("-->") { Some(i) => (&x[..i], &x[i + 3..]), None => (x, "") };
                r = rest;
                let n = sink.create_comment(part(&t, c));
                let at = stack.last().map(|x| x.1.clone()).or_else(|| html.clone()).unwrap_or_else(|| doc.clone());
                sink.append(&at, NodeOrText::AppendNode(n));
                continue;
            }
            if r.len() >= 2 && r.as_bytes()[0] == b'<' && r.as_bytes()[1] == b'!' {
                let (c, rest) = match r.find('>') { Some(i) => (&r[2..i], &r[i + 1..]), None => (&r[2..], "") };
                r = rest;
                if c.to_ascii_lowercase().starts_with("doctype") && html.is_none() {
                    let n = c[7..].trim().to_ascii_lowercase();
                    sink.append_doctype_to_document(StrTendril::from(n.as_str()), StrTendril::from(""), StrTendril::from(""));
                }
                continue;
            }
            let b = r.as_bytes();
            if b[0] == b'<' && b.len() > 2 && b[1] == b'/' && b[2].is_ascii_alphabetic() {
                let (c, rest) = match r.find('>') { Some(i) => (&r[2..i], &r[i + 1..]), None => (&r[2..], "") };
                r = rest;
                let n = c.trim().to_ascii_lowercase();
                if matches!(n.as_str(), "html" | "body") { continue; }
                if n == "head" { if body.is_none() { stack.clear(); } continue; }
                if let Some(i) = stack.iter().rposition(|x| x.0 == n) { stack.truncate(i); }
                continue;
            }
            if b[0] == b'<' && b.len() > 1 && b[1].is_ascii_alphabetic() {
                // start tag
                let mut i = 1;
                while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'>' && b[i] != b'/' { i += 1; }
                let name = r[1..i].to_ascii_lowercase();
                let mut attrs: Vec<Attribute> = vec![];
                loop {
                    while i < b.len() && (b[i].is_ascii_whitespace() || b[i] == b'/') { i += 1; }
                    if i >= b.len() || b[i] == b'>' { i = (i + 1).min(b.len()); break; }
                    let a0 = i;
                    while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'=' && b[i] != b'>' && b[i] != b'/' { i += 1; }
                    if i == a0 { i += 1; }
                    let an = r[a0..i].to_ascii_lowercase();
                    let mut v = String::new();
                    if i < b.len() && b[i] == b'=' {
                        i += 1;
                        if i < b.len() && (b[i] == b'"' || b[i] == b'\'') {
                            let q = b[i];
                            let v0 = i + 1;
                            i = v0;
                            while i < b.len() && b[i] != q { i += 1; }
                            v = decode(&r[v0..i]);
                            i = (i + 1).min(b.len());
                        } else {
                            let v0 = i;
                            while i < b.len() && !b[i].is_ascii_whitespace() && b[i] != b'>' { i += 1; }
                            v = decode(&r[v0..i]);
                        }
                    }
                    if !attrs.iter().any(|x| &*x.name.local == an.as_str()) { attrs.push(attr(&an, v)); }
                }
                r = &r[i..];
                match name.as_str() {
                    "html" => { if html.is_none() { need_html!(attrs); } else { sink.add_attrs_if_missing(html.as_ref().unwrap(), attrs); } continue; }
                    "head" => { if head.is_none() { need_head!(attrs); stack.clear(); stack.push(("head".into(), head.clone().unwrap())); } continue; }
                    "body" => { if body.is_none() { need_body!(attrs); } else { sink.add_attrs_if_missing(body.as_ref().unwrap(), attrs); } continue; }
                    _ => {}
                }
                if body.is_none() && HEAD.contains(&name.as_str()) {
                    need_head!(vec![]);
                    if stack.is_empty() { stack.push(("head".into(), head.clone().unwrap())); }
                } else if stack.is_empty() || (body.is_none() && stack.len() == 1 && stack[0].0 == "head" && !HEAD.contains(&name.as_str()) && !RAW.contains(&name.as_str())) {
                    stack.clear();
                    need_body!(vec![]);
                }
                if stack.is_empty() { stack.push(("body".into(), body.clone().unwrap())); }
                let n = mk(&name, attrs);
                sink.append(&stack.last().unwrap().1, NodeOrText::AppendNode(n.clone()));
                if VOID.contains(&name.as_str()) { continue; }
                if RAW.contains(&name.as_str()) || name == "title" || name == "textarea" {
                    let close = format!("</{name}");
                    let end = r.to_ascii_lowercase().find(&close).unwrap_or(r.len());
                    let c = &r[..end];
                    if !c.is_empty() {
                        let c = if RAW.contains(&name.as_str()) || !c.contains('&') { part(&t, c) } else { StrTendril::from(decode(c)) };
                        sink.append(&n, NodeOrText::AppendText(c));
                    }
                    r = &r[end..];
                    r = match r.find('>') { Some(i) => &r[i + 1..], None => "" };
                    continue;
                }
                stack.push((name, n));
                continue;
            }
            // text
            let mut end = r[1..].find('<').map(|i| i + 1).unwrap_or(r.len());
            loop {
                let x = &r.as_bytes()[end..];
                if x.len() > 1 && !(x[1].is_ascii_alphabetic() || x[1] == b'/' || x[1] == b'!') {
                    end = r[end + 1..].find('<').map(|i| end + 1 + i).unwrap_or(r.len());
                } else { break; }
            }
            let txt = &r[..end];
            r = &r[end..];
            let white = txt.chars().all(|c| c.is_ascii_whitespace());
            if body.is_none() && white && (stack.is_empty() || stack.len() == 1) {
                if let Some((_, h)) = stack.last() { sink.append(h, NodeOrText::AppendText(part(&t, txt))); }
                continue;
            }
            if stack.is_empty() || (body.is_none() && stack.len() == 1 && stack[0].0 == "head") { stack.clear(); need_body!(vec![]); }
            if stack.is_empty() { stack.push(("body".into(), body.clone().unwrap())); }
            sink.append(&stack.last().unwrap().1, NodeOrText::AppendText(if txt.contains('&') { StrTendril::from(decode(txt)) } else { part(&t, txt) }));
        }
        if !self.fragment { need_body!(vec![]); }
        let _ = (&html, &head, &body);
        sink.finish()
    }
}
