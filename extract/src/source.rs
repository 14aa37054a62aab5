//! Loads every function, struct, enum and type alias of the crates under check.
use std::collections::BTreeMap;
use syn::spanned::Spanned;

#[derive(Clone)]
pub struct FnSrc {
    pub file: String,
    pub line: usize,
    pub end: usize,
    pub sig: syn::Signature,
    pub vis_pub: bool,
    pub block: Option<syn::Block>,
    /// the types the impl gives its trait's names (`Self::X`)
    pub assoc: Vec<(String, syn::Type)>,
}

pub struct Source {
    pub fns: BTreeMap<String, FnSrc>,
    pub items: BTreeMap<String, (syn::Item, String)>,
    pub dups: Vec<String>,
    pub contracts: std::collections::BTreeSet<String>,
}

pub fn is_disabled_cfg(attrs: &[syn::Attribute]) -> bool {
    // Default features are off in this workspace, and the verified configuration is the
    // non-test one: cfg(test) and cfg(feature = "..") items are dropped.
    attrs.iter().any(|a| {
        if !a.path().is_ident("cfg") {
            return false;
        }
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s == "#[cfg(test)]" || (s.starts_with("#[cfg(feature=\"") && s.ends_with("\")]"))
            || s.contains("any(test,feature=\"tracing\")") && !s.contains("not(")
    })
}

pub fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => type_name(&r.elem),
        _ => "?".into(),
    }
}

impl Source {
    pub fn load(dirs: &[String]) -> Result<Source, String> {
        let mut s = Source { fns: BTreeMap::new(), items: BTreeMap::new(), dups: vec![], contracts: Default::default() };
        for d in dirs {
            let mut files: Vec<std::path::PathBuf> = vec![];
            if std::path::Path::new(d).is_file() {
                files.push(d.into());
            } else {
                collect(std::path::Path::new(d), &mut files);
            }
            files.sort();
            for f in files {
                let text = std::fs::read_to_string(&f).map_err(|e| format!("{}: {e}", f.display()))?;
                let ast = syn::parse_file(&text).map_err(|e| format!("{}: {e}", f.display()))?;
                s.add_items(&ast.items, &f.display().to_string());
            }
        }
        Ok(s)
    }

    /// An item, also reachable as `Name@file.rs`.
    fn item(&mut self, name: String, it: &syn::Item, file: &str) {
        let q = format!("{name}@{}", file.rsplit('/').next().unwrap());
        self.items.insert(q, (it.clone(), file.into()));
        self.items.insert(name, (it.clone(), file.into()));
    }

    fn put(&mut self, key: String, f: FnSrc) {
        let q = format!("{key}@{}", f.file.rsplit('/').next().unwrap());
        if self.fns.insert(q.clone(), f.clone()).is_some() {
            self.dups.push(q);
        }
        if self.fns.contains_key(&key) {
            self.dups.push(key.clone());
        }
        self.fns.insert(key, f);
    }

    fn add_items(&mut self, items: &[syn::Item], file: &str) {
        for it in items {
            match it {
                syn::Item::Fn(f) => {
                    if is_disabled_cfg(&f.attrs) {
                        continue;
                    }
                    self.put(
                        f.sig.ident.to_string(),
                        FnSrc {
                            file: file.into(),
                            line: f.sig.span().start().line,
                            end: f.block.span().end().line,
                            sig: f.sig.clone(),
                            vis_pub: matches!(f.vis, syn::Visibility::Public(_)),
                            block: Some((*f.block).clone()),
                            assoc: vec![],
                        },
                    );
                }
                syn::Item::Impl(im) => {
                    if is_disabled_cfg(&im.attrs) {
                        continue;
                    }
                    let ty = type_name(&im.self_ty);
                    let pre = match &im.trait_ {
                        Some((_, p, _)) => {
                            let seg = p.segments.last().unwrap();
                            let args: String = match &seg.arguments {
                                syn::PathArguments::AngleBracketed(a) => {
                                    quote::ToTokens::to_token_stream(a).to_string().split_whitespace().collect()
                                }
                                _ => String::new(),
                            };
                            format!("<{}{} for {}>", seg.ident, args, ty)
                        }
                        None => ty,
                    };
                    let assoc: Vec<(String, syn::Type)> = im
                        .items
                        .iter()
                        .filter_map(|x| match x {
                            syn::ImplItem::Type(t) if t.generics.params.is_empty() => Some((t.ident.to_string(), t.ty.clone())),
                            _ => None,
                        })
                        .collect();
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if is_disabled_cfg(&f.attrs) {
                                continue;
                            }
                            self.put(
                                format!("{pre}::{}", f.sig.ident),
                                FnSrc {
                                    file: file.into(),
                                    line: f.sig.span().start().line,
                                    end: f.block.span().end().line,
                                    sig: f.sig.clone(),
                                    vis_pub: matches!(f.vis, syn::Visibility::Public(_)),
                                    block: Some(f.block.clone()),
                                    assoc: assoc.clone(),
                                },
                            );
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    if is_disabled_cfg(&t.attrs) {
                        continue;
                    }
                    self.item(t.ident.to_string(), it, file);
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(f) = ti {
                            self.put(
                                format!("{}::{}", t.ident, f.sig.ident),
                                FnSrc {
                                    file: file.into(),
                                    line: f.sig.span().start().line,
                                    end: f.span().end().line,
                                    sig: f.sig.clone(),
                                    vis_pub: false,
                                    block: f.default.clone(),
                                    assoc: vec![],
                                },
                            );
                        }
                    }
                }
                syn::Item::Struct(x) => {
                    if !is_disabled_cfg(&x.attrs) {
                        self.item(x.ident.to_string(), it, file);
                    }
                }
                syn::Item::Enum(x) => {
                    if !is_disabled_cfg(&x.attrs) {
                        self.item(x.ident.to_string(), it, file);
                    }
                }
                syn::Item::Type(x) => {
                    if !is_disabled_cfg(&x.attrs) {
                        self.item(x.ident.to_string(), it, file);
                    }
                }
                syn::Item::Mod(m) => {
                    if is_disabled_cfg(&m.attrs) {
                        continue;
                    }
                    if let Some((_, its)) = &m.content {
                        self.add_items(its, file);
                    }
                }
                _ => {}
            }
        }
    }
}

fn collect(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                collect(&p, out);
            } else if p.extension().is_some_and(|x| x == "rs") {
                out.push(p);
            }
        }
    }
}
