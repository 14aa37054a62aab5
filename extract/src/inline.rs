//! Calls of helpers that have no contract of their own are replaced by the helper's body, so that
//! extracting a helper (or folding one back) leaves the obligations where they were.
use crate::source::Source;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Inliner<'a> {
    pub src: &'a Source,
    pub contracts: &'a BTreeSet<String>,
    pub impl_of: Option<String>,
    pub stack: Vec<String>,
    pub taken: BTreeSet<String>,
    pub n: usize,
    pub inlined: Vec<String>,
}

#[derive(Default)]
struct Names {
    bound: BTreeSet<String>,
    all: BTreeSet<String>,
}
impl<'a> Visit<'a> for Names {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().is_some_and(|c| c.is_lowercase() || c == '_') {
            self.bound.insert(s);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_ident(&mut self, i: &'a Ident) {
        self.all.insert(i.to_string());
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        for t in idents(m.tokens.clone()) {
            self.all.insert(t);
        }
    }
}
fn idents(ts: proc_macro2::TokenStream) -> Vec<String> {
    let mut v = vec![];
    for t in ts {
        match t {
            proc_macro2::TokenTree::Ident(i) => v.push(i.to_string()),
            proc_macro2::TokenTree::Group(g) => v.extend(idents(g.stream())),
            _ => {}
        }
    }
    v
}

/// Replaces local names by expressions (a path for a plain renaming).
struct Subst<'a> {
    map: &'a BTreeMap<String, Expr>,
    bad: bool,
}
fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}
fn simple(e: &Expr) -> bool {
    match strip(e) {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => simple(&f.base),
        _ => false,
    }
}
impl<'a> Subst<'a> {
    fn of(&self, e: &Expr) -> Option<Expr> {
        if let Expr::Path(p) = strip(e) {
            if let Some(i) = p.path.get_ident() {
                return self.map.get(&i.to_string()).cloned();
            }
        }
        None
    }
    fn name(&self, i: &Ident) -> Option<Ident> {
        match self.map.get(&i.to_string()) {
            Some(Expr::Path(p)) => p.path.get_ident().cloned(),
            _ => None,
        }
    }
    /// the base of a method call, field access or index: a borrow is implicit there
    fn base(&mut self, e: &mut Expr) {
        if let Some(Expr::Reference(r)) = self.of(e) {
            *e = *r.expr;
        } else {
            self.visit_expr_mut(e);
        }
    }
    fn tokens(&mut self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::{Group, TokenTree};
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Ident(i) if self.map.contains_key(&i.to_string()) => match self.name(&i) {
                    Some(n) => TokenTree::Ident(n),
                    None => {
                        self.bad = true;
                        TokenTree::Ident(i)
                    }
                },
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), self.tokens(g.stream()))),
                t => t,
            })
            .collect()
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(u) = e {
            if matches!(u.op, UnOp::Deref(_)) {
                if let Some(Expr::Reference(r)) = self.of(&u.expr) {
                    *e = *r.expr;
                    return;
                }
            }
        }
        if let Some(x) = self.of(e) {
            *e = x;
            return;
        }
        match e {
            Expr::MethodCall(m) => {
                self.base(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::Field(f) => self.base(&mut f.base),
            Expr::Index(i) => {
                self.base(&mut i.expr);
                self.visit_expr_mut(&mut i.index);
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    f.colon_token = Some(Default::default());
                    self.visit_expr_mut(&mut f.expr);
                }
                if let Some(r) = &mut s.rest {
                    self.visit_expr_mut(r);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        f.colon_token = Some(Default::default());
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if self.map.contains_key(&p.ident.to_string()) {
            match self.name(&p.ident) {
                Some(n) => p.ident = n,
                None => self.bad = true,
            }
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let id = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if matches!(id.as_str(), "trace" | "debug" | "info" | "warn" | "error") {
            return;
        }
        m.tokens = self.tokens(m.tokens.clone());
    }
}

struct Returns(bool, bool);
impl<'a> Visit<'a> for Returns {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.1 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn returns(b: &Block) -> bool {
    let mut r = Returns(false, false);
    r.visit_block(b);
    r.0 || r.1
}
fn tries(b: &Block) -> bool {
    let mut r = Returns(false, false);
    r.visit_block(b);
    r.1
}

/// Early returns become nested if/else; None when one sits inside a loop or an expression.
fn unreturn(stmts: Vec<Stmt>) -> Option<Vec<Stmt>> {
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        let one = Block { brace_token: Default::default(), stmts: vec![s.clone()] };
        if !returns(&one) {
            out.push(s);
            continue;
        }
        let rest: Vec<Stmt> = it.collect();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr {
                    out.push(Stmt::Expr(*e, None));
                }
                return Some(out);
            }
            Stmt::Expr(Expr::If(i), semi) => {
                let arm = |b: &Block| -> Option<Vec<Stmt>> {
                    let mut v = b.stmts.clone();
                    let ends = matches!(v.last(), Some(Stmt::Expr(Expr::Return(_), _)));
                    if !ends {
                        if returns(b) {
                            return None;
                        }
                        if semi.is_none() && rest.is_empty() {
                            return Some(v);
                        }
                        v.extend(rest.iter().cloned());
                    }
                    unreturn(v)
                };
                let t = arm(&i.then_branch)?;
                let e = match &i.else_branch {
                    None => unreturn(rest.clone())?,
                    Some((_, x)) => match &**x {
                        Expr::Block(b) => arm(&b.block)?,
                        x => {
                            let b: Block = parse_quote!({ #x });
                            let mut v = b.stmts;
                            v.extend(rest.iter().cloned());
                            unreturn(v)?
                        }
                    },
                };
                let c = &i.cond;
                out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#e)* }), None));
                return Some(out);
            }
            _ => return None,
        }
    }
    Some(out)
}

struct Body {
    pre: Vec<Stmt>,
    stmts: Vec<Stmt>,
    unit: bool,
}

impl<'a> Inliner<'a> {
    fn callee(&self, e: &Expr) -> Option<(String, Option<Expr>, Vec<Expr>)> {
        match strip(e) {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let key = match segs.len() {
                        1 => segs[0].clone(),
                        2 if segs[0] == "Self" => format!("{}::{}", self.impl_of.clone()?, segs[1]),
                        _ => return None,
                    };
                    return Some((key, None, c.args.iter().cloned().collect()));
                }
                None
            }
            Expr::MethodCall(m) => {
                if let (Expr::Path(p), Some(ty)) = (strip(&m.receiver), &self.impl_of) {
                    if p.path.is_ident("self") {
                        return Some((format!("{ty}::{}", m.method), Some((*m.receiver).clone()), m.args.iter().cloned().collect()));
                    }
                }
                None
            }
            _ => None,
        }
    }

    fn body_for(&mut self, e: &Expr) -> Option<Body> {
        let (key, recv, args) = self.callee(e)?;
        if self.contracts.contains(&key) || self.stack.contains(&key) || self.stack.len() > 4 || self.src.dups.contains(&key) {
            return None;
        }
        let f = self.src.fns.get(&key)?;
        let mut block = f.block.clone()?;
        if tries(&block) {
            return None;
        }
        let mut params = vec![];
        for a in &f.sig.inputs {
            match a {
                FnArg::Receiver(_) => {
                    recv.as_ref()?;
                }
                FnArg::Typed(t) => params.push(&*t.pat),
            }
        }
        if params.len() != args.len() {
            return None;
        }
        if returns(&block) {
            block.stmts = unreturn(block.stmts)?;
        }
        let mut names = Names::default();
        names.visit_block(&block);
        let k = self.n;
        self.n += 1;
        let mut map: BTreeMap<String, Expr> = BTreeMap::new();
        for b in &names.bound {
            if self.taken.contains(b) {
                let i = quote::format_ident!("{}_h{}", b.trim_start_matches('_'), k);
                map.insert(b.clone(), parse_quote!(#i));
            }
        }
        let mut pre = vec![];
        for (p, a) in params.iter().zip(&args) {
            let Pat::Ident(pi) = p else {
                if let Pat::Wild(_) = p {
                    continue;
                }
                return None;
            };
            let name = pi.ident.to_string();
            let direct = pi.mutability.is_none()
                && !names.bound.contains(&name)
                && match strip(a) {
                    Expr::Reference(r) => simple(&r.expr),
                    Expr::Lit(_) => true,
                    x => simple(x),
                };
            if direct {
                map.insert(name, strip(a).clone());
            } else {
                let i = quote::format_ident!("{}_h{}", name, k);
                let m = &pi.mutability;
                pre.push(parse_quote!(let #m #i = #a;));
                map.insert(name, parse_quote!(#i));
            }
        }
        let mut s = Subst { map: &map, bad: false };
        s.visit_block_mut(&mut block);
        if s.bad {
            return None;
        }
        let mut n2 = Names::default();
        n2.visit_block(&block);
        self.taken.extend(n2.all);
        self.stack.push(key.clone());
        let imp = self.impl_of.clone();
        if recv.is_none() && !key.contains("::") {
            self.impl_of = None;
        }
        self.visit_block_mut(&mut block);
        self.impl_of = imp;
        self.stack.pop();
        self.inlined.push(key);
        let unit = matches!(f.sig.output, ReturnType::Default);
        Some(Body { pre, stmts: block.stmts, unit })
    }
}

fn tail_name(stmts: &[Stmt]) -> Option<String> {
    let Some(Stmt::Expr(Expr::Path(p), None)) = stmts.last() else { return None };
    let n = p.path.get_ident()?.to_string();
    let hits = stmts
        .iter()
        .filter(|s| match s {
            Stmt::Local(l) => {
                let mut v = Names::default();
                v.visit_pat(&l.pat);
                v.bound.contains(&n)
            }
            _ => false,
        })
        .count();
    let mut v = Names::default();
    for s in stmts {
        v.visit_stmt(s);
    }
    (hits == 1).then_some(n)
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        let last = stmts.len().saturating_sub(1);
        for (k, mut s) in stmts.into_iter().enumerate() {
            match &mut s {
                Stmt::Expr(e, semi) if semi.is_some() || k == last => {
                    let mut e2 = e.clone();
                    self.args(&mut e2);
                    if let Some(body) = self.body_for(&e2) {
                        out.extend(body.pre);
                        let mut st = body.stmts;
                        if semi.is_some() || body.unit {
                            if let Some(Stmt::Expr(_, x @ None)) = st.last_mut() {
                                *x = Some(Default::default());
                            }
                        }
                        out.extend(st);
                        continue;
                    }
                }
                Stmt::Local(l) => {
                    if let (Pat::Ident(pi), Some(init)) = (&l.pat, &l.init) {
                        if init.diverge.is_none() && pi.by_ref.is_none() {
                            let mut e2 = (*init.expr).clone();
                            self.args(&mut e2);
                            if let Some(body) = self.body_for(&e2) {
                                out.extend(body.pre);
                                let mut st = body.stmts;
                                if let Some(x) = tail_name(&st) {
                                    let to = &pi.ident;
                                    let mut map = BTreeMap::new();
                                    map.insert(x, parse_quote!(#to));
                                    let mut blk = Block { brace_token: Default::default(), stmts: st.clone() };
                                    let mut sb = Subst { map: &map, bad: false };
                                    sb.visit_block_mut(&mut blk);
                                    if !sb.bad {
                                        blk.stmts.pop();
                                        out.extend(blk.stmts);
                                        continue;
                                    }
                                }
                                match st.pop() {
                                    Some(Stmt::Expr(e, None)) => {
                                        out.extend(st);
                                        l.init.as_mut().unwrap().expr = Box::new(e);
                                        out.push(s);
                                    }
                                    other => {
                                        st.extend(other);
                                        l.init.as_mut().unwrap().expr = parse_quote!({ #(#st)* });
                                        out.push(s);
                                    }
                                }
                                continue;
                            }
                        }
                    }
                }
                _ => {}
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(_) | Expr::MethodCall(_) = e {
            if self.callee(e).is_some() {
                self.args(e);
                if let Some(mut b) = self.body_for(e) {
                    if b.pre.is_empty() && b.stmts.len() == 1 {
                        if let Some(Stmt::Expr(x, None)) = b.stmts.pop() {
                            *e = parse_quote!((#x));
                            return;
                        }
                        return;
                    }
                    let (p, s) = (&b.pre, &b.stmts);
                    *e = parse_quote!({ #(#p)* #(#s)* });
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
impl<'a> Inliner<'a> {
    fn args(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => c.args.iter_mut().for_each(|a| self.visit_expr_mut(a)),
            Expr::MethodCall(c) => c.args.iter_mut().for_each(|a| self.visit_expr_mut(a)),
            _ => {}
        }
    }
}

const RESERVED: &[&str] = &[
    "real", "int", "nat", "ghost", "tracked", "proof", "spec", "exec", "requires", "ensures", "recommends", "invariant",
    "decreases", "forall", "exists", "choose", "via", "when", "old", "returns", "has", "implies", "by", "broadcast", "closed",
    "open", "arbitrary",
];

/// The body of `key` with the helpers it calls folded in.
pub fn inline(src: &Source, contracts: &BTreeSet<String>, key: &str, block: &Block) -> (Block, Vec<String>) {
    let mut names = Names::default();
    names.visit_block(block);
    let impl_of = match key.split_once("::") {
        Some((t, _)) if !t.starts_with('<') => Some(t.to_string()),
        _ => None,
    };
    let mut inl = Inliner { src, contracts, impl_of, stack: vec![key.to_string()], taken: names.all, n: 0, inlined: vec![] };
    let mut b = block.clone();
    inl.visit_block_mut(&mut b);
    if let Some(Stmt::Expr(Expr::Return(r), Some(_))) = b.stmts.last() {
        if let Some(e) = r.expr.clone() {
            b.stmts.pop();
            b.stmts.push(Stmt::Expr(*e, None));
        }
    }
    // local names that mean something else to the verifier
    let mut names = Names::default();
    names.visit_block(&b);
    let mut map: BTreeMap<String, Expr> = BTreeMap::new();
    for n in RESERVED {
        if names.bound.contains(*n) {
            let i = quote::format_ident!("{}_local", n);
            map.insert(n.to_string(), parse_quote!(#i));
        }
    }
    if !map.is_empty() {
        let mut s = Subst { map: &map, bad: false };
        s.visit_block_mut(&mut b);
    }
    (b, inl.inlined)
}
