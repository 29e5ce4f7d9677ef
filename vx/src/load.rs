//! Reads the crate: follows `mod` declarations, evaluates cfg (all features on, test off).
use std::path::{Path, PathBuf};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Module {
    pub path: Vec<String>,
    pub file: PathBuf,
    pub items: Vec<Item>,
}

pub struct Krate {
    pub modules: Vec<Module>,
}

fn cfg_meta(m: &Meta) -> bool {
    match m {
        Meta::Path(p) => {
            if p.is_ident("test") {
                false
            } else {
                p.is_ident("debug_assertions") || p.is_ident("unix")
            }
        }
        Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                true
            } else {
                false
            }
        }
        Meta::List(l) => {
            let inner: Vec<Meta> = l
                .parse_args_with(punctuated::Punctuated::<Meta, Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                !inner.iter().all(cfg_meta)
            } else if l.path.is_ident("all") {
                inner.iter().all(cfg_meta)
            } else if l.path.is_ident("any") {
                inner.iter().any(cfg_meta)
            } else {
                false
            }
        }
    }
}

pub fn keep(attrs: &[Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match &a.meta {
                Meta::List(l) => l.parse_args::<Meta>().map(|m| cfg_meta(&m)).unwrap_or(true),
                _ => true,
            }
        } else {
            !a.path().is_ident("test")
        }
    })
}

fn keep_punct<T: Clone, P: Default>(
    p: &mut punctuated::Punctuated<T, P>,
    f: impl Fn(&T) -> bool,
) {
    let v: Vec<T> = p.iter().filter(|t| f(t)).cloned().collect();
    *p = v.into_iter().collect();
}

struct Cfg;
impl VisitMut for Cfg {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => keep(&l.attrs),
            Stmt::Macro(m) => keep(&m.attrs),
            Stmt::Item(_) => true,
            Stmt::Expr(e, _) => keep(expr_attrs(e)),
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        m.arms.retain(|a| keep(&a.attrs));
        visit_mut::visit_expr_match_mut(self, m);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        keep_punct(&mut s.fields, |f| keep(&f.attrs));
        visit_mut::visit_expr_struct_mut(self, s);
    }
    fn visit_fields_named_mut(&mut self, f: &mut FieldsNamed) {
        keep_punct(&mut f.named, |f| keep(&f.attrs));
        visit_mut::visit_fields_named_mut(self, f);
    }
    fn visit_item_enum_mut(&mut self, e: &mut ItemEnum) {
        keep_punct(&mut e.variants, |v| keep(&v.attrs));
        visit_mut::visit_item_enum_mut(self, e);
    }
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.items.retain(|x| match x {
            ImplItem::Fn(f) => keep(&f.attrs),
            ImplItem::Const(f) => keep(&f.attrs),
            ImplItem::Type(f) => keep(&f.attrs),
            _ => true,
        });
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.retain(|a| {
            !(a.path().is_ident("doc")
                || a.path().is_ident("cfg")
                || a.path().is_ident("inline")
                || a.path().is_ident("allow")
                || a.path().is_ident("deny")
                || a.path().is_ident("must_use")
                || a.path().is_ident("cfg_attr")
                || a.path().is_ident("zeroize")
                || a.path().is_ident("cold")
                || a.path().is_ident("rustfmt")
                || a.path().segments.first().map_or(false, |s| s.ident == "clippy"))
        });
    }
}

fn expr_attrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::If(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Block(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        _ => &[],
    }
}

fn item_attrs(i: &Item) -> &[Attribute] {
    match i {
        Item::Const(x) => &x.attrs,
        Item::Enum(x) => &x.attrs,
        Item::ExternCrate(x) => &x.attrs,
        Item::Fn(x) => &x.attrs,
        Item::Impl(x) => &x.attrs,
        Item::Macro(x) => &x.attrs,
        Item::Mod(x) => &x.attrs,
        Item::Static(x) => &x.attrs,
        Item::Struct(x) => &x.attrs,
        Item::Trait(x) => &x.attrs,
        Item::Type(x) => &x.attrs,
        Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn module(
    k: &mut Krate,
    path: Vec<String>,
    file: PathBuf,
    dir: PathBuf,
    items: Vec<Item>,
) -> std::result::Result<(), String> {
    let mut own = vec![];
    let mut subs = vec![];
    for mut it in items {
        if !keep(item_attrs(&it)) {
            continue;
        }
        if let Item::Mod(m) = &it {
            let name = m.ident.to_string();
            let mut p = path.clone();
            p.push(name.clone());
            if let Some((_, inner)) = &m.content {
                subs.push((p, file.clone(), dir.join(&name), inner.clone()));
            } else {
                let mut custom = None;
                for a in &m.attrs {
                    if a.path().is_ident("path") {
                        if let Meta::NameValue(nv) = &a.meta {
                            if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &nv.value {
                                custom = Some(file.parent().unwrap().join(s.value()));
                            }
                        }
                    }
                }
                let (f, d) = if let Some(c) = custom {
                    (c.clone(), c.parent().unwrap().to_path_buf())
                } else {
                    let a = dir.join(format!("{name}.rs"));
                    let b = dir.join(&name).join("mod.rs");
                    (if a.exists() { a } else { b }, dir.join(&name))
                };
                let text = std::fs::read_to_string(&f)
                    .map_err(|e| format!("cannot read {}: {e}", f.display()))?;
                let parsed =
                    parse_file(&text).map_err(|e| format!("cannot parse {}: {e}", f.display()))?;
                subs.push((p, f, d, parsed.items));
            }
            continue;
        }
        Cfg.visit_item_mut(&mut it);
        own.push(it);
    }
    k.modules.push(Module { path, file, items: own });
    for (p, f, d, i) in subs {
        module(k, p, f, d, i)?;
    }
    Ok(())
}

pub fn load(src: &Path) -> std::result::Result<Krate, String> {
    let f = src.join("lib.rs");
    let text = std::fs::read_to_string(&f).map_err(|e| format!("cannot read {}: {e}", f.display()))?;
    let parsed = parse_file(&text).map_err(|e| format!("cannot parse {}: {e}", f.display()))?;
    let mut k = Krate { modules: vec![] };
    module(&mut k, vec![], f, src.to_path_buf(), parsed.items)?;
    Ok(k)
}
