//! `RefCell` fields made plain, where a template asks for it: the cell's content is a field, a
//! method that changes it takes `&mut self`. That no two borrows are alive at once is then not
//! checked as the cell checks it (at run time) but by the borrow checker, for the rewritten text.
use crate::source::FnSrc;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn plain_type(t: &mut Type) {
    let Type::Path(p) = t else { return };
    let Some(seg) = p.path.segments.last() else { return };
    if seg.ident != "RefCell" {
        return;
    }
    if let PathArguments::AngleBracketed(a) = &seg.arguments {
        if let Some(GenericArgument::Type(x)) = a.args.first() {
            *t = x.clone();
        }
    }
}
struct Assoc<'a>(&'a [(String, Type)]);
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                if let Some((_, x)) = self.0.iter().find(|(n, _)| p.path.segments[1].ident == n) {
                    *t = x.clone();
                }
            }
        }
    }
}
fn bare(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => bare(&p.expr),
        _ => e,
    }
}
/// `self.f.borrow_mut()` and the like
fn cell(e: &Expr) -> Option<(Expr, String)> {
    if let Expr::MethodCall(m) = bare(e) {
        if m.args.is_empty() && ["borrow", "borrow_mut", "into_inner"].iter().any(|x| m.method == x) {
            if let Expr::Field(f) = bare(&m.receiver) {
                if let Expr::Path(p) = bare(&f.base) {
                    if p.path.is_ident("self") {
                        return Some(((*m.receiver).clone(), m.method.to_string()));
                    }
                }
            }
        }
    }
    None
}
struct Plain {
    names: Vec<Ident>,
}
impl VisitMut for Plain {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if cell(&i.expr).is_some_and(|c| c.1 != "into_inner") {
                self.names.push(p.ident.clone());
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = bare(&c.func) {
                let l: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                if l == ["RefCell", "new"] && c.args.len() == 1 {
                    *e = c.args[0].clone();
                }
            }
        }
        // the place itself, where the surrounding expression reaches through the borrow
        match e {
            Expr::MethodCall(m) => {
                if let Some((x, _)) = cell(&m.receiver) {
                    *m.receiver = x;
                }
            }
            Expr::Reference(r) => {
                if let Some((x, _)) = cell(&r.expr) {
                    *r.expr = x;
                } else if let Expr::Path(p) = bare(&r.expr) {
                    if self.names.iter().any(|n| p.path.is_ident(n)) {
                        let x = (*r.expr).clone();
                        *r.expr = parse_quote!(*#x);
                    }
                }
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some((x, _)) = cell(&u.expr) {
                    *e = x;
                }
            }
            Expr::Index(i) => {
                if let Some((x, _)) = cell(&i.expr) {
                    *i.expr = x;
                }
            }
            _ => {}
        }
        if let Some((x, how)) = cell(e) {
            *e = match how.as_str() {
                "borrow_mut" => parse_quote!(&mut #x),
                "borrow" => parse_quote!(&#x),
                _ => x,
            };
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn plain(f: &mut FnSrc, b: Option<&mut Block>) {
    let a = f.assoc.clone();
    Assoc(&a).visit_signature_mut(&mut f.sig);
    if let Some(FnArg::Receiver(r)) = f.sig.inputs.first_mut() {
        if r.reference.is_some() && r.mutability.is_none() {
            *r = parse_quote!(&mut self);
        }
    }
    if let Some(b) = b {
        Plain { names: vec![] }.visit_block_mut(b);
    }
}
