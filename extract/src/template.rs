//! Expands `//@fn`, `//@item` directives of a template with text taken from the source.
use crate::rewrite::{ret_type, Hooks, Paths, Rw};
use crate::source::Source;
use quote::ToTokens;
use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::VisitMut;

fn tok(t: impl ToTokens) -> String {
    crate::print::print(t.to_token_stream(), &HashMap::new(), 0, false).trim().to_string()
}

/// The functions that have a contract in this template.
pub fn contracts(dir: &std::path::Path, text: &str, out: &mut std::collections::BTreeSet<String>) -> Result<(), String> {
    for l in text.lines() {
        let t = l.trim();
        if let Some(p) = t.strip_prefix("//@include ") {
            let full = dir.join(p.trim());
            let sub = std::fs::read_to_string(&full).map_err(|e| format!("{p}: {e}"))?;
            contracts(full.parent().unwrap(), &sub, out)?;
        } else if let Some(rest) = t.strip_prefix("//@fn ") {
            out.insert(fn_key(rest));
        }
    }
    Ok(())
}

fn fn_key(rest: &str) -> String {
    rest.trim().split(" as ").next().unwrap().split(" loops=").next().unwrap().split(" sigonly").next().unwrap().split(" cells").next().unwrap().trim().to_string()
}

pub fn expand(
    dir: &std::path::Path,
    text: &str,
    src: &Source,
    used: &mut BTreeMap<String, String>,
    counts: &mut BTreeMap<String, usize>,
) -> Result<String, String> {
    let mut out = String::new();
    let lines: Vec<&str> = text.lines().collect();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        let t = l.trim();
        if let Some(rest) = t.strip_prefix("//@include ") {
            let p = rest.trim();
            let full = dir.join(p);
            let sub = std::fs::read_to_string(&full).map_err(|e| format!("{p}: {e}"))?;
            out.push_str(&expand(full.parent().unwrap(), &sub, src, used, counts)?);
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@item ") {
            // //@item Name [drop-generics]
            out.push_str(&item(rest.trim(), src)?);
            i += 1;
            continue;
        }
        if let Some(rest) = t.strip_prefix("//@fn ") {
            let mut words = rest.split_whitespace();
            let key0 = fn_key(rest);
            let sigonly = rest.contains(" sigonly");
            let cells = rest.contains(" cells");
            let want_loops = rest.split(" loops=").nth(1).map(|x| x.split_whitespace().next().unwrap().parse::<usize>().unwrap());
            let _ = words.next();
            let mut h = Hooks::default();
            let mut cur = String::new();
            i += 1;
            let mut closed = false;
            while i < lines.len() {
                let lt = lines[i].trim();
                if lt == "//@end" {
                    closed = true;
                    i += 1;
                    break;
                }
                if let Some(k) = lt.strip_prefix("//@") {
                    let k = k.trim();
                    if let Some(a) = k.strip_prefix("attr ") {
                        h.attrs.push_str(a);
                        h.attrs.push('\n');
                    } else if let Some(a) = k.strip_prefix("ret ") {
                        h.ret = a.trim().to_string();
                    } else if ["params ", "var ", "pat "].iter().any(|p| k.starts_with(p)) {
                        h.names.push(k.to_string());
                    } else {
                        cur = k.to_string();
                    }
                } else if cur == "spec" {
                    h.spec.push_str(lines[i]);
                    h.spec.push('\n');
                } else if !cur.is_empty() {
                    let e = h.at.entry(cur.clone()).or_default();
                    e.push_str(lines[i]);
                    e.push('\n');
                }
                i += 1;
            }
            if !closed {
                return Err(format!("template: //@fn {key0} without //@end"));
            }
            out.push_str(&func(&key0, &h, src, used, counts, want_loops, sigonly, cells)?);
            continue;
        }
        out.push_str(l);
        out.push('\n');
        i += 1;
    }
    Ok(out)
}

fn item(name: &str, src: &Source) -> Result<String, String> {
    let (name, cells) = match name.strip_suffix(" cells") {
        Some(n) => (n.trim(), true),
        None => (name, false),
    };
    let (it, file) = src.items.get(name).ok_or(format!("item {name} not found in the source"))?;
    let mut it = it.clone();
    Paths.visit_item_mut(&mut it);
    let mut s = format!("//@src {file} {name}\n");
    match &mut it {
        syn::Item::Struct(x) => {
            x.attrs.clear();
            x.vis = syn::parse_quote!(pub);
            for f in x.fields.iter_mut() {
                f.attrs.clear();
                f.vis = syn::parse_quote!(pub);
                if cells {
                    crate::cells::plain_type(&mut f.ty);
                }
            }
            s.push_str(&crate::print::print(x.to_token_stream(), &HashMap::new(), 0, true));
        }
        syn::Item::Enum(x) => {
            x.attrs.clear();
            x.vis = syn::parse_quote!(pub);
            for v in x.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            s.push_str(&crate::print::print(x.to_token_stream(), &HashMap::new(), 0, true));
        }
        syn::Item::Type(x) => {
            x.attrs.clear();
            x.vis = syn::parse_quote!(pub);
            s.push_str(&crate::print::print(x.to_token_stream(), &HashMap::new(), 0, true));
        }
        _ => return Err(format!("item {name}: unsupported kind")),
    }
    s.push('\n');
    Ok(s)
}

fn func(
    key: &str,
    h: &Hooks,
    src: &Source,
    used: &mut BTreeMap<String, String>,
    counts: &mut BTreeMap<String, usize>,
    want_loops: Option<usize>,
    sigonly: bool,
    cells: bool,
) -> Result<String, String> {
    let f = src.fns.get(key).ok_or(format!("function {key} not found in the source"))?;
    if src.dups.iter().any(|d| d == key) {
        return Err(format!("function {key} is defined more than once"));
    }
    let inlined = match (&f.block, sigonly) {
        (Some(b), false) => {
            let (b, names) = crate::inline::inline(src, &src.contracts, key, b);
            for _ in &names {
                *counts.entry("call of a helper without contract replaced by its body".into()).or_insert(0) += 1;
            }
            Some(b)
        }
        (b, _) => b.clone(),
    };
    let mut plain = f.clone();
    let mut inlined = inlined;
    if cells {
        crate::cells::plain(&mut plain, inlined.as_mut());
        *counts.entry("RefCell made plain: &self -> &mut self, self.x.borrow_mut() -> &mut self.x".into()).or_insert(0) += 1;
    }
    let f = &plain;
    let renamed = rename_hooks(h, &f.sig, inlined.as_ref()).map_err(|e| format!("{key}: {e}"))?;
    let h = &renamed;
    let mut sig = f.sig.clone();
    let (seq, ret) = ret_type(&mut sig);
    Paths.visit_signature_mut(&mut sig);
    let mut s = String::new();
    let short = f.file.rsplit("/repo/").next().unwrap().to_string();
    s.push_str(&format!("//@begin {key} {short}:{}\n", f.line));
    s.push_str(&h.attrs);
    if f.vis_pub {
        s.push_str("pub ");
    }
    let (g, _, wh) = sig.generics.split_for_impl();
    let gens = &sig.generics;
    let _ = g;
    let mut gp = gens.clone();
    gp.where_clause = None;
    s.push_str(&format!("fn {}{}(", sig.ident, if gp.params.is_empty() { String::new() } else { tok(&gp) }));
    let ins: Vec<String> = sig
        .inputs
        .iter()
        .map(|a| tok(a))
        .collect();
    s.push_str(&ins.join(", "));
    s.push(')');
    if let Some(t) = ret {
        let t = tok(t).replace("impl Deref < Target = HashSet < NodeId > > + '_", "DescRef<'_>");
        s.push_str(&format!(" -> ({}: {})", if h.ret.is_empty() { "r" } else { &h.ret }, t));
    }
    if let Some(w) = wh {
        s.push_str(&format!("\n{}", tok(w)));
        if !s.trim_end().ends_with(',') {
            s.push(',');
        }
    }
    s.push('\n');
    s.push_str(&h.spec);
    let (loops, closures);
    match (&inlined, sigonly) {
        (Some(b), false) => {
            let mut rw = Rw::new(h, short.clone(), counts);
            let body = rw.body(b, seq);
            if !rw.errors.is_empty() {
                return Err(format!("{key}: {}", rw.errors.join("; ")));
            }
            loops = rw.loops;
            closures = rw.closures;
            if let Some(w) = want_loops {
                if w != rw.loops {
                    return Err(format!("{key}: structure changed: {} loops where the contracts describe {w}", rw.loops));
                }
            }
            for k in h.at.keys() {
                if !rw.used_hooks.contains(k) && !k.ends_with(" type") {
                    return Err(format!("{key}: structure changed: nothing to attach `{k}` to"));
                }
            }
            let t = crate::print::print(body.to_token_stream(), &rw.txt, 0, true);
            s.push_str(&t);
            s.push('\n');
        }
        (_, true) => {
            loops = 0;
            closures = 0;
            s.push_str("{ unimplemented!() }\n");
        }
        (None, _) => {
            loops = 0;
            closures = 0;
            let k = s.trim_end().len();
            s.truncate(k);
            s.push_str("\n;\n");
        }
    }
    s.push_str(&format!("//@endfn {key}\n"));
    let how = if sigonly { "assumed" } else if f.block.is_none() { "declaration" } else { "verified" };
    used.insert(
        key.to_string(),
        format!(
            "{{\"name\": {}, \"file\": {}, \"line\": {}, \"end_line\": {}, \"loops\": {}, \"closures\": {}, \"body\": \"{}\"}}",
            crate::json_str(key),
            crate::json_str(&short),
            f.line,
            f.end,
            loops,
            closures,
            how
        ),
    );
    Ok(s)
}

/// Local names the contracts talk about: `//@params a b ..` (the parameters, in order),
/// `//@var NAME K TEXT` (the K-th `let` whose initialiser contains TEXT), `//@pat N x y ..`
/// (the names bound by the pattern of
/// loop N; `N+M` also applies them to the hooks of loop M). When the source uses other names, the contract
/// text is adapted, so a renamed local or parameter does not matter.
#[derive(Default)]
struct Locals {
    lets: Vec<(String, String)>,
    pats: Vec<Vec<String>>,
}
fn idents(p: &syn::Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
            self.0.push(p.ident.to_string());
            syn::visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}
impl<'a> syn::visit::Visit<'a> for Locals {
    fn visit_local(&mut self, l: &'a syn::Local) {
        if let Some(i) = &l.init {
            let e = &i.expr;
            let text: String = quote::quote!(#e).to_string().split_whitespace().collect();
            for x in idents(&l.pat) {
                self.lets.push((x, text.clone()));
            }
        }
        syn::visit::visit_local(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.pats.push(idents(&l.pat));
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        let mut v = vec![];
        if let syn::Expr::Let(x) = &*l.cond {
            v = idents(&x.pat);
        }
        self.pats.push(v);
        syn::visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.pats.push(vec![]);
        syn::visit::visit_expr_loop(self, l);
    }
}
fn rename_hooks(h: &Hooks, sig: &syn::Signature, block: Option<&syn::Block>) -> Result<Hooks, String> {
    let mut out = h.clone();
    if h.names.is_empty() {
        return Ok(out);
    }
    let mut l = Locals::default();
    if let Some(b) = block {
        syn::visit::Visit::visit_block(&mut l, b);
    }
    let mut map: Vec<(String, String)> = vec![];
    for n in &h.names {
        let w: Vec<&str> = n.split_whitespace().collect();
        let mut pairs: Vec<(String, String)> = vec![];
        if w[0] == "params" {
            let have: Vec<String> = sig
                .inputs
                .iter()
                .filter_map(|a| match a {
                    syn::FnArg::Typed(t) => Some(idents(&t.pat).join(".")),
                    _ => None,
                })
                .collect();
            if have.len() != w.len() - 1 {
                return Err("structure changed: other parameters than the contract describes".into());
            }
            for (a, b) in w[1..].iter().zip(have) {
                pairs.push((a.to_string(), b));
            }
        } else if w[0] == "var" {
            let k: usize = w[2].parse().unwrap();
            let text: String = w[3..].concat();
            let f: Vec<&(String, String)> = l.lets.iter().filter(|(_, t)| t.contains(&text)).collect();
            let x = f.get(k).ok_or(format!("structure changed: no local initialised from `{text}`"))?;
            pairs.push((w[1].to_string(), x.0.clone()));
        } else {
            let k: usize = w[1].split('+').next().unwrap().parse().unwrap();
            let f = l.pats.get(k).ok_or(format!("structure changed: no loop {k}"))?;
            if f.len() != w.len() - 2 {
                return Err(format!("structure changed: loop {k} binds other names"));
            }
            for (a, b) in w[2..].iter().zip(f) {
                pairs.push((a.to_string(), b.clone()));
            }
        }
        if w[0] == "pat" {
            // scoped to the hooks of that loop
            for n in w[1].split('+') {
                let pre = format!("loop {n} ");
                for (k, v) in out.at.iter_mut() {
                    if k.starts_with(&pre) {
                        *v = subst(v, &pairs);
                    }
                }
            }
        } else {
            map.extend(pairs);
        }
    }
    out.spec = subst(&out.spec, &map);
    for v in out.at.values_mut() {
        *v = subst(v, &map);
    }
    Ok(out)
}
fn subst(s: &str, map: &[(String, String)]) -> String {
    if map.iter().all(|(a, b)| a == b) {
        return s.to_string();
    }
    let mut o = String::new();
    let mut w = String::new();
    for c in s.chars().chain(std::iter::once('\n')) {
        if c.is_alphanumeric() || c == '_' {
            w.push(c);
        } else {
            match map.iter().find(|(a, _)| *a == w) {
                Some((_, b)) => o.push_str(b),
                None => o.push_str(&w),
            }
            w.clear();
            o.push(c);
        }
    }
    o.pop();
    o
}
