//! The mechanical rewriting of function bodies into the Rust subset the verifier accepts.
//! Every rule is stated in DESIGN.md ("What the extraction does"); nothing here looks at
//! which function is being rewritten.
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Proof text to splice into one function (from the template).
#[derive(Default, Clone)]
pub struct Hooks {
    pub attrs: String,
    pub ret: String,
    pub spec: String,
    /// key: "start", "tail", "loop 0 head", "loop 0 start", "loop 0 end", "loop 0 before",
    /// "loop 0 after", "closure 0 requires", "closure 0 ensures", "after add 0", "before add 0"
    pub at: BTreeMap<String, String>,
    /// `params ..`, `var ..`, `pat ..` lines
    pub names: Vec<String>,
}

pub struct Rw<'a> {
    pub hooks: &'a Hooks,
    pub file: String,
    pub txt: HashMap<usize, String>,
    pub loops: usize,
    pub closures: usize,
    pub calls: HashMap<String, usize>,
    pub errors: Vec<String>,
    pub counts: &'a mut BTreeMap<String, usize>,
    pub used_hooks: Vec<String>,
    /// calls seen while visiting the current statement
    stmt_calls: Vec<(String, usize)>,
    /// "loop N end" text of the loops being visited, innermost last
    ends: Vec<Option<String>>,
}

const OPT: &[&str] = &[
    "map", "and_then", "or_else", "is_some_and", "is_none_or", "unwrap_or_else", "map_or", "filter",
];
const ITER_ADAPT: &[&str] = &["filter", "map", "filter_map", "zip", "rev", "enumerate", "copied", "cloned", "chain", "skip", "take"];
const TREE_METHODS: &[&str] = &[
    "kind", "hash", "properties", "text", "parent", "children", "child_count", "position", "height",
    "descendants", "is_opaque",
];

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

pub fn is_iter(e: &Expr) -> bool {
    match strip(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            match n.as_str() {
                "iter" | "into_iter" | "into_sq" | "children" | "descendants" | "post_order" | "pairs" | "drain" | "chars" | "chars_sq" => true,
                x if ITER_ADAPT.contains(&x) => is_iter(&m.receiver),
                _ => false,
            }
        }
        _ => false,
    }
}

fn has_float(e: &Expr) -> bool {
    match strip(e) {
        Expr::Lit(l) => matches!(l.lit, Lit::Float(_)),
        Expr::Cast(c) => c.ty.to_token_stream().to_string() == "f64",
        Expr::Binary(b) => {
            matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_))
                && (has_float(&b.left) || has_float(&b.right))
        }
        Expr::Unary(u) => has_float(&u.expr),
        Expr::Call(c) => {
            let f = c.func.to_token_stream().to_string();
            f == "as_f64" || f.starts_with("f64_")
        }
        _ => false,
    }
}

fn has_jump(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

impl<'a> Rw<'a> {
    pub fn new(hooks: &'a Hooks, file: String, counts: &'a mut BTreeMap<String, usize>) -> Self {
        Rw {
            hooks,
            file,
            txt: HashMap::new(),
            loops: 0,
            closures: 0,
            calls: HashMap::new(),
            errors: vec![],
            counts,
            used_hooks: vec![],
            stmt_calls: vec![],
            ends: vec![],
        }
    }

    fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_insert(0) += 1;
    }

    fn err(&mut self, line: usize, s: impl Into<String>) {
        let s = s.into();
        self.errors.push(format!("{}:{}: {}", self.file, line, s));
    }

    fn mk_txt(&mut self, s: String) -> usize {
        let n = self.txt.len();
        self.txt.insert(n, s);
        n
    }

    fn txt_stmt(&mut self, s: String) -> Stmt {
        let n = Literal::usize(self.mk_txt(s));
        parse_quote!(__txt!(#n);)
    }

    fn hook(&mut self, key: &str) -> Option<Stmt> {
        let t = self.hooks.at.get(key)?.clone();
        self.used_hooks.push(key.to_string());
        Some(self.txt_stmt(t))
    }

    fn head(&mut self, n: usize, auto: &str) -> Stmt {
        let key = format!("loop {n} head");
        let mut s = String::new();
        let user = self.hooks.at.get(&key).cloned();
        if user.is_some() {
            self.used_hooks.push(key);
        }
        let user = user.unwrap_or_default();
        let (inv, dec) = match user.find("decreases") {
            Some(i) => (user[..i].to_string(), user[i..].to_string()),
            None => (user, String::new()),
        };
        let (auto_inv, auto_dec) = match auto.split_once("||") {
            Some((a, b)) => (a.to_string(), b.to_string()),
            None => (String::new(), String::new()),
        };
        if !auto_inv.is_empty() && !inv.contains("invariant") {
            s.push_str("    invariant\n");
            s.push_str(&format!("        {auto_inv},\n"));
            s.push_str(&inv);
        } else if !auto_inv.is_empty() {
            let k = inv.find("invariant").unwrap() + "invariant".len();
            s.push_str(&inv[..k]);
            s.push_str(&format!(" {auto_inv},"));
            s.push_str(&inv[k..]);
        } else {
            s.push_str(&inv);
        }
        if !s.ends_with('\n') && !s.is_empty() {
            s.push('\n');
        }
        if !dec.is_empty() {
            s.push_str(&dec);
        } else if !auto_dec.is_empty() {
            s.push_str(&format!("    decreases {auto_dec}"));
        }
        let k = Literal::usize(self.mk_txt(s));
        parse_quote!(__head!(#k);)
    }

    fn should_drop(&self, s: &Stmt) -> Option<&'static str> {
        fn mac(m: &Macro) -> Option<&'static str> {
            let id = m.path.segments.last()?.ident.to_string();
            match id.as_str() {
                "trace" | "debug" | "info" | "warn" | "error" => Some("logging macro dropped"),
                _ => None,
            }
        }
        match s {
            Stmt::Macro(m) => {
                if crate::source::is_disabled_cfg(&m.attrs) {
                    return Some("cfg-disabled statement dropped");
                }
                mac(&m.mac)
            }
            Stmt::Expr(e, _) => {
                let attrs: &[Attribute] = match e {
                    Expr::Block(b) => &b.attrs,
                    Expr::If(b) => &b.attrs,
                    Expr::MethodCall(b) => &b.attrs,
                    Expr::Call(b) => &b.attrs,
                    Expr::ForLoop(b) => &b.attrs,
                    Expr::Macro(b) => &b.attrs,
                    Expr::Assign(b) => &b.attrs,
                    _ => &[],
                };
                if crate::source::is_disabled_cfg(attrs) {
                    return Some("cfg-disabled statement dropped");
                }
                match e {
                    Expr::Macro(m) => mac(&m.mac),
                    Expr::MethodCall(m) if m.method == "with" => match strip(&m.receiver) {
                        Expr::Path(p)
                            if p.path.get_ident().is_some_and(|i| {
                                i.to_string().chars().all(|c| c.is_ascii_uppercase() || c == '_')
                            }) =>
                        {
                            Some("thread-local profiling counter update dropped")
                        }
                        _ => None,
                    },
                    _ => None,
                }
            }
            Stmt::Local(l) => {
                if crate::source::is_disabled_cfg(&l.attrs) {
                    Some("cfg-disabled statement dropped")
                } else {
                    None
                }
            }
            Stmt::Item(_) => None,
        }
    }

    fn seal(stmts: &mut [Stmt]) {
        if let Some(Stmt::Expr(_, semi @ None)) = stmts.last_mut() {
            *semi = Some(Default::default());
        }
    }

    pub fn body(&mut self, block: &Block, seq_ret: bool) -> Block {
        let mut b = block.clone();
        self.visit_block_mut(&mut b);
        // tail
        if seq_ret {
            if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
                let x = e.clone();
                *e = parse_quote!((#x).into_sq());
            } else {
                self.errors.push("iterator-returning function without tail expression".into());
            }
        }
        if let Some(h) = self.hook("tail") {
            let pos = match b.stmts.last() {
                Some(Stmt::Expr(_, None)) => b.stmts.len() - 1,
                _ => b.stmts.len(),
            };
            // a line marker precedes the tail expression; keep it adjacent
            let pos = if pos < b.stmts.len() && pos > 0 { pos - 1 } else { pos };
            b.stmts.insert(pos, h);
        }
        if let Some(h) = self.hook("start") {
            b.stmts.insert(0, h);
        }
        b
    }

    fn loop_stmts(&mut self, e: Expr, out: &mut Vec<Stmt>) {
        let n = self.loops;
        self.loops += 1;
        let before = self.hook(&format!("loop {n} before"));
        out.extend(before);
        let start = self.hook(&format!("loop {n} start"));
        let end = self.hook(&format!("loop {n} end"));
        self.ends.push(self.hooks.at.get(&format!("loop {n} end")).cloned());
        match e {
            Expr::ForLoop(mut f) => {
                self.count("for loop -> index loop over the collected sequence");
                self.visit_expr_mut(&mut f.expr);
                let s = quote::format_ident!("__s{}", n);
                let i = quote::format_ident!("__i{}", n);
                let head = self.head(
                    n,
                    &format!("0 <= __i{n} <= __s{n}@.len()||__s{n}@.len() - __i{n}"),
                );
                self.visit_block_mut(&mut f.body);
                let ex = &f.expr;
                let mut pat = (*f.pat).clone();
                let owned = format!("loop {n} owned");
                let mut at: Expr = if self.hooks.at.contains_key(&owned) {
                    self.used_hooks.push(owned);
                    self.count("for over owned values -> each handed out once");
                    parse_quote!(#s.at_owned(#i))
                } else {
                    parse_quote!(#s.at(#i))
                };
                while let Pat::Reference(r) = pat {
                    at = parse_quote!(*#at);
                    pat = *r.pat;
                }
                let label = &f.label;
                let mut body = f.body.stmts.clone();
                Self::seal(&mut body);
                out.push(parse_quote!(let #s = (#ex).into_sq();));
                out.push(parse_quote!(let mut #i: usize = 0;));
                if let Some(h) = self.hook(&format!("loop {n} pre")) {
                    out.push(h);
                }
                let w: Expr = parse_quote!(
                    #label while #i < #s.len() {
                        #head
                        let #pat = #at;
                        #i = #i + 1;
                        #start
                        #(#body)*
                        #end
                    }
                );
                out.push(Stmt::Expr(w, None));
            }
            Expr::While(mut w) => {
                if let Expr::Let(l) = *w.cond {
                    self.count("while let -> loop with match");
                    let mut ex = *l.expr;
                    self.visit_expr_mut(&mut ex);
                    let head = self.head(n, "");
                    let top = self.hook(&format!("loop {n} top"));
                    self.visit_block_mut(&mut w.body);
                    let pat = &l.pat;
                    let label = &w.label;
                    let mut body = w.body.stmts.clone();
                    Self::seal(&mut body);
                    let x: Expr = parse_quote!(
                        #label loop {
                            #head
                            #top
                            match #ex {
                                #pat => {
                                    #start
                                    #(#body)*
                                    #end
                                }
                                _ => {
                                    break;
                                }
                            }
                        }
                    );
                    out.push(Stmt::Expr(x, None));
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    let head = self.head(n, "");
                    self.visit_block_mut(&mut w.body);
                    let cond = &w.cond;
                    let label = &w.label;
                    let mut body = w.body.stmts.clone();
                    Self::seal(&mut body);
                    let x: Expr = parse_quote!(#label while #cond { #head #start #(#body)* #end });
                    out.push(Stmt::Expr(x, None));
                }
            }
            Expr::Loop(mut l) => {
                let head = self.head(n, "");
                self.visit_block_mut(&mut l.body);
                let label = &l.label;
                let mut body = l.body.stmts.clone();
                Self::seal(&mut body);
                let x: Expr = parse_quote!(#label loop { #head #start #(#body)* #end });
                out.push(Stmt::Expr(x, None));
            }
            _ => unreachable!(),
        }
        self.ends.pop();
        if let Some(h) = self.hook(&format!("loop {n} after")) {
            out.push(h);
        }
    }

    /// `matches!(e, pat)` -> match; `vec![x; n]` -> call; `vec![a, b]` rewritten inside.
    fn macro_expr(&mut self, m: &ExprMacro) -> Option<Expr> {
        let id = m.mac.path.segments.last()?.ident.to_string();
        match id.as_str() {
            "matches" => {
                struct A(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for A {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(A(e, p, g))
                    }
                }
                let A(e, p, g) = syn::parse2(m.mac.tokens.clone()).ok()?;
                self.count("matches! -> match");
                Some(match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    None => parse_quote!(match #e { #p => true, _ => false }),
                })
            }
            "ns" | "local_name" => {
                let t = m.mac.tokens.to_string();
                let t = t.trim().trim_matches('"');
                let f = Ident::new(&format!("{}_name", id.trim_end_matches("_name")), proc_macro2::Span::call_site());
                self.count("ns!(x) -> ns_name(\"x\"), local_name!(\"x\") -> local_name(\"x\")");
                Some(parse_quote!(#f(#t)))
            }
            "format" => {
                self.count("format! -> a string nothing is known about");
                Some(parse_quote!(some_string()))
            }
            "format_compact" => {
                struct F(LitStr, Vec<Expr>);
                impl syn::parse::Parse for F {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let l = i.parse()?;
                        let mut v = Vec::new();
                        while i.peek(Token![,]) {
                            i.parse::<Token![,]>()?;
                            if i.is_empty() {
                                break;
                            }
                            v.push(i.parse()?);
                        }
                        Ok(F(l, v))
                    }
                }
                let F(l, v) = syn::parse2(m.mac.tokens.clone()).ok()?;
                if l.value() != "{}{}" || v.len() != 2 {
                    return None;
                }
                let (a, b) = (&v[0], &v[1]);
                self.count("format_compact!(\"{}{}\", a, b) -> the two texts joined");
                Some(parse_quote!(joined(#a.displayed(), #b.displayed())))
            }
            "vec" | "smallvec" => {
                struct R(Expr, Expr);
                impl syn::parse::Parse for R {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(R(e, i.parse()?))
                    }
                }
                if let Ok(R(x, n)) = syn::parse2(m.mac.tokens.clone()) {
                    self.count("vec![x; n] -> vec_from_elem");
                    return Some(parse_quote!(vec_from_elem(#x, #n)));
                }
                struct L(punctuated::Punctuated<Expr, Token![,]>);
                impl syn::parse::Parse for L {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        Ok(L(punctuated::Punctuated::parse_terminated(i)?))
                    }
                }
                let L(xs) = syn::parse2(m.mac.tokens.clone()).ok()?;
                let mut it: Vec<Expr> = xs.into_iter().collect();
                for x in it.iter_mut() {
                    self.visit_expr_mut(x);
                }
                Some(parse_quote!(vec![#(#it),*]))
            }
            _ => None,
        }
    }

    fn opt_closure(&mut self, mc: &ExprMethodCall) -> Option<Expr> {
        let name = mc.method.to_string();
        let cl = match mc.args.last() {
            Some(Expr::Closure(c)) => c.clone(),
            _ => return None,
        };
        if has_jump(&cl.body) {
            self.err(mc.span().start().line, "closure with an early exit");
            return None;
        }
        let x = &mc.receiver;
        let body = &cl.body;
        let p0 = cl.inputs.first().map(|p| match p {
            Pat::Type(t) => (*t.pat).clone(),
            p => p.clone(),
        });
        self.count("Option combinator with closure -> match");
        Some(match (name.as_str(), p0) {
            ("map", Some(p)) => parse_quote!(match #x { Some(#p) => Some(#body), None => None }),
            ("and_then", Some(p)) => parse_quote!(match #x { Some(#p) => #body, None => None }),
            ("or_else", None) => parse_quote!(match #x { Some(__v) => Some(__v), None => #body }),
            ("is_some_and", Some(p)) => parse_quote!(match #x { Some(#p) => #body, None => false }),
            ("is_none_or", Some(p)) => parse_quote!(match #x { Some(#p) => #body, None => true }),
            ("filter", Some(p)) => parse_quote!(match #x { Some(__v) => if { let #p = &__v; #body } { Some(__v) } else { None }, None => None }),
            ("unwrap_or_else", None) => parse_quote!(match #x { Some(__v) => __v, None => #body }),
            ("map_or", Some(p)) => {
                let d = &mc.args[0];
                parse_quote!(match #x { Some(#p) => #body, None => #d })
            }
            _ => return None,
        })
    }

    fn iter_closure(&mut self, mc: &mut ExprMethodCall) {
        let name = mc.method.to_string();
        let line = mc.span().start().line;
        let Some(Expr::Closure(cl)) = mc.args.last().cloned() else { return };
        let n = self.closures;
        self.closures += 1;
        self.count("iterator closure given a generated contract");
        let mut binds: Vec<TokenStream> = vec![];
        let mut params: Vec<String> = vec![];
        for (k, p) in cl.inputs.iter().enumerate() {
            let c = quote::format_ident!("__c{}_{}", n, k);
            params.push(c.to_string());
            let mut p = match p {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            let mut deref: TokenStream = quote!(#c);
            while let Pat::Reference(r) = p {
                deref = quote!(*#deref);
                p = *r.pat;
            }
            binds.push(quote!(let #p = #deref;));
        }
        let ret_ty = match name.as_str() {
            "map" => self.hooks.at.get(&format!("closure {n} type")).cloned().unwrap_or_else(|| if arith(&cl.body) { "usize".into() } else { "_".into() }),
            "sort_by" | "max_by" | "min_by" => "Ordering".into(),
            "filter_map" => self.hooks.at.get(&format!("closure {n} type")).cloned().unwrap_or_else(|| "_".into()),
            _ => "bool".into(),
        };
        let orig = (*cl.body).clone();
        let old = orig.clone();
        let spec = match name.as_str() {
            "sort_by" | "max_by" | "min_by" => None,
            _ if owning(&orig).is_some() => None,
            _ if parts(&orig).is_some() => None,
            _ => match spec_expr(&orig) {
                Ok(s) => Some(s),
                // the template says what the closure does; the body is checked against it
                Err(_) if self.hooks.at.contains_key(&format!("closure {n} ensures")) => None,
                Err(e) => {
                    self.err(line, format!("closure body outside the supported fragment: {e}"));
                    None
                }
            },
        };
        let mut reqs = vec![];
        requirements(&orig, &mut reqs);
        let mut body = orig;
        self.visit_expr_mut(&mut body);
        let mut s = format!("|{}| -> (r: {})", params.join(", "), ret_ty);
        let b = quote!(#(#binds)*);
        let mut rq: Vec<String> = reqs.iter().map(|r| format!("({{ {b} {r} }})")).collect();
        if let Some(h) = self.hooks.at.get(&format!("closure {n} requires")) {
            self.used_hooks.push(format!("closure {n} requires"));
            rq.push(h.trim().to_string());
        }
        if !rq.is_empty() {
            s.push_str(&format!("\n        requires {}", rq.join(", ")));
        }
        let mut en: Vec<String> = vec![];
        if let Some(x) = owning(&old) {
            if let Ok(x) = spec_expr(x) {
                en.push(format!("({{ {b} {x}.s_owns(r) }})"));
            }
        }
        if let Some(ps) = parts(&old) {
            for (k, p) in ps.iter().enumerate() {
                let k = Literal::usize(k);
                match strip(p) {
                    Expr::MethodCall(m) if m.method == "clone" && m.args.is_empty() => {
                        if let Ok(x) = spec_expr(&m.receiver) {
                            en.push(format!("({{ {b} {x}.s_cloned(pair_{k}(r)) }})"));
                        }
                    }
                    p => {
                        if let Ok(x) = spec_expr(p) {
                            en.push(format!("({{ {b} is_val(pair_{k}(r), {x}) }})"));
                        }
                    }
                }
            }
        }
        if let Some(sp) = spec {
            if ret_ty == "_" {
                en.push(format!("is_val(r, {{ {b} {sp} }})"));
            } else {
                en.push(format!("r == ({{ {b} {sp} }})"));
            }
        }
        if let Some(h) = self.hooks.at.get(&format!("closure {n} ensures")) {
            self.used_hooks.push(format!("closure {n} ensures"));
            en.push(h.trim().to_string());
        }
        if !en.is_empty() {
            s.push_str(&format!("\n        ensures {}", en.join(", ")));
        }
        let blk = quote!({ #b #body });
        let t = crate::print::print(blk, &self.txt, 2, false);
        s.push_str(&format!("\n        {}", t.trim()));
        let k = Literal::usize(self.mk_txt(s));
        let e: Expr = parse_quote!(__txt!(#k));
        *mc.args.last_mut().unwrap() = e;
    }
}

use proc_macro2::Literal as Literal_;
#[allow(non_snake_case)]
mod Literal {
    pub fn usize(n: usize) -> super::Literal_ {
        super::Literal_::usize_unsuffixed(n)
    }
}

/// `(x, y)`: every component on its own.
fn parts(e: &Expr) -> Option<Vec<&Expr>> {
    match strip(e) {
        Expr::Tuple(t) if t.elems.len() == 2 => Some(t.elems.iter().collect()),
        _ => None,
    }
}

/// `x.into_owned()`: the result has the view of `x`.
fn owning(e: &Expr) -> Option<&Expr> {
    match strip(e) {
        Expr::MethodCall(m) if m.method == "into_owned" && m.args.is_empty() => Some(&m.receiver),
        _ => None,
    }
}

fn arith(e: &Expr) -> bool {
    match strip(e) {
        Expr::Binary(_) | Expr::Cast(_) => true,
        Expr::Lit(l) => matches!(l.lit, Lit::Int(_)),
        _ => false,
    }
}

/// Receiver/argument pairs of tree queries inside a closure body: the query's precondition
/// (the node is in the tree) becomes the closure's precondition.
fn requirements(e: &Expr, out: &mut Vec<String>) {
    struct V<'b>(&'b mut Vec<String>);
    impl<'a, 'b> syn::visit::Visit<'a> for V<'b> {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            let n = m.method.to_string();
            if TREE_METHODS.contains(&n.as_str()) && m.args.len() == 1 {
                let r = &m.receiver;
                if let (Ok(a), true) = (spec_expr(&m.args[0]), matches!(strip(r), Expr::Path(_))) {
                    let s = format!("{}.inv() && {}.s_has({})", r.to_token_stream(), r.to_token_stream(), a);
                    if !self.0.contains(&s) {
                        self.0.push(s);
                    }
                }
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    syn::visit::Visit::visit_expr(&mut V(out), e);
}

/// `X.arena`
fn is_arena(e: &Expr) -> bool {
    let base = e.to_token_stream().to_string();
    base.split(|c: char| !c.is_alphanumeric() && c != '_').next_back() == Some("arena")
}
fn spec_block(b: &Block) -> std::result::Result<TokenStream, String> {
    match b.stmts.as_slice() {
        [Stmt::Expr(e, None)] => spec_expr(e),
        _ => Err("block".into()),
    }
}
/// Executable expression -> the same expression over the spec counterparts of the functions.
pub fn spec_expr(e: &Expr) -> std::result::Result<TokenStream, String> {
    Ok(match e {
        Expr::Path(p) => {
            let mut p = p.clone();
            Paths.visit_expr_path_mut(&mut p);
            quote!(#p)
        }
        Expr::Lit(l) if matches!(l.lit, Lit::Str(_)) => quote!(#l@),
        Expr::Lit(l) => quote!(#l),
        Expr::Index(i) if is_arena(&i.expr) => {
            let b = spec_expr(&i.expr)?;
            let x = spec_expr(&i.index)?;
            quote!(#b.s_at(#x))
        }
        Expr::If(i) => {
            let t = spec_block(&i.then_branch)?;
            let Some((_, e)) = &i.else_branch else { return Err("if without else".into()) };
            let e = spec_expr(e)?;
            match &*i.cond {
                Expr::Let(l) => {
                    let x = spec_expr(&l.expr)?;
                    let mut p = (*l.pat).clone();
                    Paths.visit_pat_mut(&mut p);
                    quote!((match #x { #p => #t, _ => #e }))
                }
                c => {
                    let c = spec_expr(c)?;
                    quote!((if #c { #t } else { #e }))
                }
            }
        }
        Expr::Paren(p) => {
            let x = spec_expr(&p.expr)?;
            quote!((#x))
        }
        Expr::Field(f) => {
            let b = spec_expr(&f.base)?;
            let m = &f.member;
            quote!(#b.#m)
        }
        Expr::Unary(u) => {
            let x = spec_expr(&u.expr)?;
            let op = &u.op;
            quote!(#op #x)
        }
        Expr::Reference(r) => {
            let x = spec_expr(&r.expr)?;
            quote!(&#x)
        }
        Expr::Binary(b) => {
            let l = spec_expr(&b.left)?;
            let r = spec_expr(&b.right)?;
            match b.op {
                BinOp::Ge(_) => quote!(s_ge(#l, #r)),
                BinOp::Le(_) => quote!(s_le(#l, #r)),
                BinOp::Gt(_) => quote!(s_gt(#l, #r)),
                BinOp::Lt(_) => quote!(s_lt(#l, #r)),
                BinOp::And(_) | BinOp::Or(_) | BinOp::Eq(_) | BinOp::Ne(_) => {
                    let op = &b.op;
                    quote!((#l #op #r))
                }
                _ => return Err(format!("operator in `{}`", e.to_token_stream())),
            }
        }
        Expr::MethodCall(m) if m.method == "unwrap_or" && m.args.len() == 1 => {
            let r = spec_expr(&m.receiver)?;
            let d = spec_expr(&m.args[0])?;
            quote!((match #r { Some(__v) => __v, None => #d }))
        }
        Expr::MethodCall(m) if OPT.contains(&m.method.to_string().as_str()) && matches!(m.args.last(), Some(Expr::Closure(_))) => {
            let mut c = BTreeMap::new();
            let h = Hooks::default();
            let mut rw = Rw::new(&h, String::new(), &mut c);
            let Some(x) = rw.opt_closure(m) else { return Err(format!("`{}`", e.to_token_stream())) };
            spec_expr(&x)?
        }
        Expr::Match(m) => {
            let x = spec_expr(&m.expr)?;
            let mut arms = vec![];
            for a in &m.arms {
                if a.guard.is_some() {
                    return Err("match guard".into());
                }
                let mut p = a.pat.clone();
                Paths.visit_pat_mut(&mut p);
                let b = spec_expr(&a.body)?;
                arms.push(quote!(#p => #b));
            }
            quote!((match #x { #(#arms),* }))
        }
        Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) => {
            let x = spec_expr(&c.args[0])?;
            quote!(Some(#x))
        }
        Expr::MethodCall(m) => {
            let r = spec_expr(&m.receiver)?;
            let n = quote::format_ident!("s_{}", m.method);
            let mut a = vec![];
            for x in &m.args {
                a.push(spec_expr(x)?);
            }
            quote!(#r.#n(#(#a),*))
        }
        Expr::Block(b) => spec_block(&b.block)?,
        Expr::Macro(m) if m.mac.path.is_ident("matches") => {
            let mut c = BTreeMap::new();
            let h = Hooks::default();
            let mut rw = Rw::new(&h, String::new(), &mut c);
            let Some(Expr::Match(mm)) = rw.macro_expr(m) else { return Err("matches!".into()) };
            let x = spec_expr(&mm.expr)?;
            let mut p = mm.arms[0].pat.clone();
            Paths.visit_pat_mut(&mut p);
            if mm.arms[0].guard.is_some() {
                return Err("matches! guard".into());
            }
            quote!((match #x { #p => true, _ => false }))
        }
        _ => return Err(format!("`{}`", e.to_token_stream())),
    })
}

/// Strips module prefixes (`std::collections::`, `crate::tree::` ..).
pub struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 1 {
            let first = p.segments[0].ident.to_string();
            if matches!(first.as_str(), "std" | "core" | "crate" | "super" | "alloc" | "indextree" | "tree" | "matching" | "cinereus" | "rapidhash" | "hotmeal" | "dom" | "diff" | "html5ever" | "compact_str" | "smallvec" | "tendril" | "facet_postcard") {
                let n = p.segments.len();
                let keep = if n >= 2
                    && p.segments[n - 2].ident.to_string().chars().next().unwrap().is_uppercase()
                {
                    2
                } else {
                    1
                };
                let segs: Vec<PathSegment> = p.segments.iter().skip(n - keep).cloned().collect();
                p.leading_colon = None;
                p.segments = segs.into_iter().collect();
            }
        }
    }
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        Paths.visit_path_mut(p);
        // `SmallVec` is an alias of `Vec` in the overlay, whose element type `SmallVec::new` does not fix.
        if p.segments.len() == 2 && p.segments[0].ident == "SmallVec" && p.segments[0].arguments.is_empty() {
            p.segments[0].ident = Ident::new("Vec", p.segments[0].ident.span());
            self.count("SmallVec is Vec");
        }
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let file = self.file.clone();
        for mut st in stmts {
            if let Some(why) = self.should_drop(&st) {
                self.count(why);
                continue;
            }
            let line = st.span().start().line;
            let mark = self.txt_stmt(format!("//@src {file}:{line}"));
            out.push(mark);
            if let Stmt::Expr(Expr::Continue(c), _) = &st {
                match (&c.label, self.ends.last().cloned()) {
                    (None, Some(Some(t))) => {
                        let h = self.txt_stmt(t);
                        out.push(h);
                    }
                    (Some(_), _) => self.err(line, "labelled continue"),
                    _ => {}
                }
            }
            match st {
                Stmt::Expr(e @ (Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)), _) => {
                    self.loop_stmts(e, &mut out);
                    continue;
                }
                _ => {}
            }
            let saved = std::mem::take(&mut self.stmt_calls);
            self.visit_stmt_mut(&mut st);
            let calls = std::mem::replace(&mut self.stmt_calls, saved);
            // hooks before / after the statement containing the k-th call of a function
            for (n, k) in &calls {
                if let Some(h) = self.hook(&format!("before {n} {k}")) {
                    out.push(h);
                }
            }
            out.push(st);
            for (n, k) in &calls {
                if let Some(h) = self.hook(&format!("after {n} {k}")) {
                    if let Some(Stmt::Expr(_, s @ None)) = out.last_mut() {
                        *s = Some(Default::default());
                    }
                    out.push(h);
                }
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let line = e.span().start().line;
        // ---- pre-order rules
        if let Expr::Macro(m) = e {
            if let Some(mut n) = self.macro_expr(&m.clone()) {
                if let Expr::Macro(_) = n {
                    *e = n;
                    return;
                }
                self.visit_expr_mut(&mut n);
                *e = n;
                return;
            }
            if !m.mac.path.is_ident("__txt") {
                self.err(line, format!("macro {}!", m.mac.path.to_token_stream()));
            }
            return;
        }
        if let Expr::If(i) = e {
            if let Expr::Binary(_) = &*i.cond {
                let mut conj: Vec<Expr> = vec![];
                fn flat(e: &Expr, out: &mut Vec<Expr>) {
                    match e {
                        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => {
                            flat(&b.left, out);
                            flat(&b.right, out);
                        }
                        _ => out.push(e.clone()),
                    }
                }
                flat(&i.cond, &mut conj);
                if conj.iter().any(|c| matches!(c, Expr::Let(_))) {
                    self.count("let chain -> nested if");
                    let els = i.else_branch.clone().map(|(_, b)| b);
                    let mut body: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                    for c in conj.into_iter().rev() {
                        let blk: Block = match &body {
                            Expr::Block(b) if b.label.is_none() => b.block.clone(),
                            x => parse_quote!({ #x }),
                        };
                        body = match &els {
                            Some(x) => parse_quote!(if #c #blk else #x),
                            None => parse_quote!(if #c #blk),
                        };
                    }
                    *e = body;
                    self.visit_expr_mut(e);
                    return;
                }
            }
        }
        if let Expr::MethodCall(mc) = e {
            let name = mc.method.to_string();
            // X.entry(K).or_default().push(V)
            if name == "push" {
                if let Expr::MethodCall(m2) = strip(&mc.receiver) {
                    if m2.method == "or_default" {
                        if let Expr::MethodCall(m3) = strip(&m2.receiver) {
                            if m3.method == "entry" {
                                let x = &m3.receiver;
                                let k = &m3.args[0];
                                let v = &mc.args[0];
                                self.count("entry().or_default().push() -> entry_or_default_push()");
                                *e = parse_quote!(#x.entry_or_default_push(#k, #v));
                                self.visit_expr_mut(e);
                                return;
                            }
                        }
                    }
                }
            }
            if OPT.contains(&name.as_str())
                && !is_iter(&mc.receiver)
                && matches!(mc.args.last(), Some(Expr::Closure(_)))
            {
                let mc2 = mc.clone();
                if let Some(n) = self.opt_closure(&mc2) {
                    *e = n;
                    self.visit_expr_mut(e);
                    return;
                }
                self.err(line, format!("closure passed to {name}"));
            }
            if matches!(mc.args.last(), Some(Expr::Closure(_))) {
                self.visit_expr_mut(&mut mc.receiver);
                self.iter_closure(mc);
                // a vector changed in place
                let vec = match strip(&mc.receiver) {
                    Expr::MethodCall(r) if name == "find" && r.method == "iter_mut" => Some(r.receiver.clone()),
                    _ if name == "retain" => Some(mc.receiver.clone()),
                    _ => None,
                };
                if let Some(v) = vec {
                    let f = quote::format_ident!("{}", if name == "find" { "vec_find_mut" } else { "vec_retain" });
                    let c = mc.args.last().unwrap();
                    self.count("iter_mut().find() / retain() -> function over the vector");
                    *e = parse_quote!(#f(&mut #v, #c));
                    self.call_seen(&name);
                    return;
                }
                if mc.method == "into_iter" {
                    mc.method = quote::format_ident!("into_sq");
                }
                self.call_seen(&name);
                return;
            }
        }
        if let Expr::Closure(_) = e {
            self.err(line, "closure outside a recognised call");
            return;
        }
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            self.err(line, "loop in expression position");
            return;
        }
        if let Expr::Await(_) | Expr::Async(_) | Expr::Unsafe(_) = e {
            self.err(line, "await/async/unsafe");
            return;
        }
        // ---- children first
        visit_mut::visit_expr_mut(self, e);
        // ---- post-order rules
        match e {
            Expr::MethodCall(mc) => {
                if mc.method == "into_iter" {
                    mc.method = quote::format_ident!("into_sq");
                    self.count("into_iter -> into_sq");
                }
                if mc.method == "unwrap_or_default" {
                    mc.method = quote::format_ident!("or_default_value");
                    self.count("unwrap_or_default -> or_default_value");
                }
                if mc.method == "get_mut" && mc.args.is_empty() {
                    if let Expr::MethodCall(a) = strip(&mc.receiver) {
                        if a.method == "at" && is_arena(&a.receiver) {
                            let mut a = a.clone();
                            a.method = quote::format_ident!("data_mut");
                            self.count("arena[id].get_mut() -> arena.data_mut(id)");
                            self.call_seen("data_mut");
                            *e = Expr::MethodCall(a);
                            return;
                        }
                    }
                }
                if mc.method == "chars" && mc.args.is_empty() {
                    mc.method = quote::format_ident!("chars_sq");
                    self.count("chars -> chars_sq");
                }
                for (a, b) in [("as_bytes", "bytes_of_text"), ("to_ascii_lowercase", "ascii_lowered"), ("is_ascii_whitespace", "ascii_space")] {
                    if mc.method == a && mc.args.is_empty() {
                        mc.method = quote::format_ident!("{}", b);
                        self.count("as_bytes, to_ascii_lowercase, is_ascii_whitespace -> methods with a contract");
                    }
                }
                if mc.method == "zip" && mc.args.len() == 1 && matches!(&mc.args[0], Expr::Path(_)) {
                    let x = &mc.args[0];
                    mc.args[0] = parse_quote!(#x.into_sq());
                    self.count("zip(x) -> zip(x.into_sq())");
                }
                let n = mc.method.to_string();
                self.call_seen(&n);
            }
            Expr::Lit(ExprLit { lit: Lit::ByteStr(l), .. }) if l.value().is_ascii() => {
                let t = String::from_utf8(l.value()).unwrap();
                self.count("b\"...\" -> byte_text(\"...\")");
                *e = parse_quote!(byte_text(#t));
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    self.call_seen(&n);
                    // a cell is made with the rule its values keep to, which the hooks name `__rule`
                    if c.args.len() == 1 && p.path.to_token_stream().to_string().replace(' ', "") == "Cell::new" {
                        let x = &c.args[0];
                        self.count("Cell::new(x) -> Cell::new_ruled(x, Ghost(__rule))");
                        *e = parse_quote!(Cell::new_ruled(#x, Ghost(__rule)));
                    }
                }
            }
            Expr::Index(x) => {
                // indexing an indextree arena
                let base = strip(&x.expr).to_token_stream().to_string();
                if base.split(|c: char| !c.is_alphanumeric() && c != '_').next_back() == Some("arena") {
                    let (b, i) = (&x.expr, &x.index);
                    self.count("arena[id] -> arena.at(id)");
                    *e = parse_quote!(#b.at(#i));
                    self.call_seen("at");
                    return;
                }
                if let Expr::Range(ExprRange { start: Some(a), end: Some(z), limits: RangeLimits::HalfOpen(_), .. }) = &*x.index {
                    let b = &x.expr;
                    self.count("x[a..b] -> x.part(a, b)");
                    *e = parse_quote!(#b.part(#a, #z));
                }
            }
            Expr::Cast(c) => {
                if c.ty.to_token_stream().to_string() == "f64" {
                    let x = &c.expr;
                    self.count("as f64 -> as_f64 (uninterpreted)");
                    *e = parse_quote!(as_f64(#x));
                }
            }
            Expr::Binary(b) => {
                if has_float(&b.left) || has_float(&b.right) {
                    let f = match b.op {
                        BinOp::Add(_) => "f64_add",
                        BinOp::Sub(_) => "f64_sub",
                        BinOp::Mul(_) => "f64_mul",
                        BinOp::Div(_) => "f64_div",
                        _ => return,
                    };
                    let f = quote::format_ident!("{}", f);
                    let (l, r) = (&b.left, &b.right);
                    self.count("float arithmetic -> uninterpreted f64 function");
                    *e = parse_quote!(#f(#l, #r));
                }
            }
            _ => {}
        }
    }
}

impl<'a> Rw<'a> {
    fn call_seen(&mut self, n: &str) {
        let k = self.calls.entry(n.to_string()).or_insert(0);
        self.stmt_calls.push((n.to_string(), *k));
        *k += 1;
    }
}

/// `impl Iterator<Item = T> + '_` -> `Sq<T>`; returns whether it applied.
pub fn ret_type(sig: &mut Signature) -> (bool, Option<Type>) {
    let ReturnType::Type(_, t) = &sig.output else { return (false, None) };
    let mut ty = (**t).clone();
    if let Type::ImplTrait(it) = &ty {
        for b in &it.bounds {
            if let TypeParamBound::Trait(tb) = b {
                let seg = tb.path.segments.last().unwrap();
                if seg.ident == "Iterator" || seg.ident == "DoubleEndedIterator" {
                    if let PathArguments::AngleBracketed(a) = &seg.arguments {
                        for g in &a.args {
                            if let GenericArgument::AssocType(at) = g {
                                let mut x = at.ty.clone();
                                Paths.visit_type_mut(&mut x);
                                return (true, Some(parse_quote!(Sq<#x>)));
                            }
                        }
                    }
                }
            }
        }
    }
    Paths.visit_type_mut(&mut ty);
    (false, Some(ty))
}
