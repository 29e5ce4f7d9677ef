//! Emits the Verus crate for one slice together with a map from output lines to clauses and source.
use crate::contracts::{in_slice, Clause, Contracts, FnContract};
use crate::inline::{FnRec, Inliner};
use crate::load::Krate;
use crate::rewrite::*;
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path as FsPath;
use std::str::FromStr;
use syn::visit_mut::VisitMut;
use syn::*;

const INHERENT: &[&str] = &["AsRef", "AsMut", "Default", "TryFrom"];
const DROP_BOUNDS: &[&str] = &["Debug", "Display", "Send", "Sync"];

pub struct Emitter {
    k: Krate,
    c: Contracts,
    slice: String,
    external: BTreeSet<String>,
    nocontract: BTreeSet<String>,
    vacuity: bool,
    prelude: String,
    spec_fns: BTreeSet<String>,
    out: String,
    line: usize,
    col0: bool,
    src_line: BTreeMap<usize, (String, usize)>,
    regions: Vec<Value>,
    fns: Vec<Value>,
    inlined: BTreeSet<String>,
    not_emitted: BTreeSet<String>,
    lost: BTreeSet<String>,
    dropped: BTreeSet<String>,
    clause_tab: Vec<(String, Clause)>,
    open: Option<(usize, usize)>,
    cur_file: String,
    env: Env,
    consts: BTreeMap<Vec<String>, BTreeSet<String>>,
    structural: BTreeSet<String>,
    helpers: BTreeMap<String, Vec<FnRec>>,
    field_ty: BTreeMap<String, String>,
    contracted: BTreeMap<String, String>, // code key -> contract key
    called: BTreeSet<String>,
    /// free functions of the crate that are not emitted anywhere
    gone: BTreeSet<String>,
}

fn trait_name(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}
fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => ty_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}
fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}
fn byte_like(t: &Type) -> bool {
    match t {
        Type::Reference(r) => byte_like(&r.elem),
        Type::Slice(_) | Type::Array(_) => true,
        _ => false,
    }
}

struct Generic<'a> {
    local: &'a BTreeSet<String>,
}
impl<'a> VisitMut for Generic<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        fix_path(p, self.local);
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        for p in g.type_params_mut() {
            strip(&mut p.bounds);
        }
        if let Some(w) = &mut g.where_clause {
            let mut v: punctuated::Punctuated<WherePredicate, Token![,]> = Default::default();
            for p in w.predicates.iter().cloned() {
                if let WherePredicate::Type(mut t) = p {
                    strip(&mut t.bounds);
                    if !t.bounds.is_empty() {
                        v.push(WherePredicate::Type(t));
                    }
                } else {
                    v.push(p);
                }
            }
            w.predicates = v;
        }
        visit_mut::visit_generics_mut(self, g);
    }
}
use syn::visit_mut;
fn strip(b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>) {
    let v: Vec<TypeParamBound> = b
        .iter()
        .filter(|x| match x {
            TypeParamBound::Trait(t) => !DROP_BOUNDS.contains(&trait_name(&t.path).as_str()),
            TypeParamBound::Lifetime(_) => true,
            _ => true,
        })
        .cloned()
        .collect();
    *b = v.into_iter().collect();
}

impl Emitter {
    pub fn new(
        k: Krate,
        c: Contracts,
        slice: String,
        external: Vec<String>,
        nocontract: Vec<String>,
        vacuity: bool,
        cdir: &FsPath,
    ) -> Self {
        let prelude = crate::contracts::filter_lines(
            &std::fs::read_to_string(cdir.join("prelude.rs")).unwrap(),
            &slice,
        );
        let words: Vec<&str> = c.spec.split(|x: char| !x.is_alphanumeric() && x != '_').filter(|x| !x.is_empty()).collect();
        let spec_fns = words.windows(3).filter(|w| w[0] == "spec" && w[1] == "fn").map(|w| w[2].to_string()).collect();
        Emitter {
            k,
            c,
            slice,
            external: external.into_iter().collect(),
            nocontract: nocontract.into_iter().collect(),
            vacuity,
            prelude,
            spec_fns,
            out: String::new(),
            line: 1,
            col0: true,
            src_line: Default::default(),
            regions: vec![],
            fns: vec![],
            inlined: Default::default(),
            not_emitted: Default::default(),
            lost: Default::default(),
            dropped: Default::default(),
            clause_tab: vec![],
            open: None,
            cur_file: String::new(),
            env: Default::default(),
            consts: Default::default(),
            structural: Default::default(),
            helpers: Default::default(),
            field_ty: Default::default(),
            contracted: Default::default(),
            called: Default::default(),
            gone: Default::default(),
        }
    }
    pub fn text(&self) -> &str {
        &self.out
    }
    pub fn map(&self) -> Value {
        let lines: BTreeMap<String, Value> = self
            .src_line
            .iter()
            .map(|(l, (f, n))| (l.to_string(), json!([f, n])))
            .collect();
        json!({
            "slice": self.slice, "lines": lines, "regions": self.regions, "fns": self.fns,
            "inlined": self.inlined, "not_emitted": self.not_emitted, "lost": self.lost,
            "dropped": self.dropped,
        })
    }

    // ------------------------------------------------------------------ printing
    fn raw(&mut self, s: &str) {
        self.out.push_str(s);
        self.line += s.matches('\n').count();
        self.col0 = s.ends_with('\n');
    }
    fn nl(&mut self) {
        if !self.col0 {
            self.raw("\n");
        }
    }
    fn raw_block(&mut self, kind: &str, s: &str) {
        self.nl();
        let l0 = self.line;
        self.raw(s);
        self.nl();
        self.regions.push(json!({"kind": kind, "l0": l0, "l1": self.line - 1}));
    }
    fn ts(&mut self, ts: TokenStream) {
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    self.tok(a, g.span_open().start().line);
                    if a == "{" {
                        self.nl();
                    }
                    self.ts(g.stream());
                    if a == "{" {
                        self.nl();
                    }
                    self.tok(b, g.span_close().start().line);
                    if a == "{" {
                        self.nl();
                    }
                }
                TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if let Some(n) = s.strip_prefix("__CL").and_then(|x| x.strip_suffix("__")) {
                        let n: usize = n.parse().unwrap();
                        self.nl();
                        self.open = Some((n, self.line));
                        continue;
                    }
                    if s == "__CE__" {
                        let (n, l0) = self.open.take().unwrap();
                        self.nl();
                        let (f, cl) = self.clause_tab[n].clone();
                        self.regions.push(json!({"id": cl.id, "kind": cl.kind, "fn": f, "tags": cl.tags, "goals": cl.goals, "label": cl.label,
                            "text": cl.text, "loop": cl.lp, "l0": l0, "l1": self.line - 1}));
                        continue;
                    }
                    self.tok(&s, i.span().start().line);
                    self.out.push(' ');
                }
                TokenTree::Punct(p) => {
                    let s = p.as_char().to_string();
                    self.tok(&s, p.span().start().line);
                    if p.spacing() == Spacing::Alone {
                        self.out.push(' ');
                    }
                    if p.as_char() == ';' {
                        self.nl();
                    }
                }
                TokenTree::Literal(l) => {
                    let s = l.to_string();
                    self.tok(&s, l.span().start().line);
                    self.out.push(' ');
                }
            }
        }
    }
    fn tok(&mut self, s: &str, line: usize) {
        if s.is_empty() {
            return;
        }
        if line > 1 && self.open.is_none() {
            if let Some((_, l)) = self.src_line.get(&self.line) {
                if *l != line && !self.col0 {
                    self.nl();
                }
            }
            let f = self.cur_file.clone();
            self.src_line.entry(self.line).or_insert((f, line));
        }
        self.out.push_str(s);
        self.col0 = false;
    }

    // ------------------------------------------------------------------ collection
    fn collect(&mut self) {
        let mut kinds: BTreeMap<String, Option<Kind>> = Default::default();
        let mut arity: BTreeMap<String, Option<usize>> = Default::default();
        let mut fields: BTreeMap<String, Option<Kind>> = Default::default();
        let mut all: Vec<FnRec> = vec![];
        let mut ftys: BTreeMap<String, Option<String>> = Default::default();
        let mut enums: Vec<(String, Vec<String>, Vec<Type>)> = vec![];
        for m in &self.k.modules {
            let mut note_fn = |sig: &Signature| {
                let n = sig.ident.to_string();
                let k = match &sig.output {
                    ReturnType::Type(_, t) => kind_of_type(t),
                    _ => None,
                };
                let e = kinds.entry(n.clone()).or_insert(k);
                if *e != k {
                    *e = None;
                }
                let a = sig.inputs.len();
                let e = arity.entry(n).or_insert(Some(a));
                if *e != Some(a) {
                    *e = None;
                }
            };
            for it in &m.items {
                match it {
                    Item::Const(c) if byte_like(&c.ty) => {
                        self.env.byte_consts.insert(c.ident.to_string());
                        self.consts.entry(m.path.clone()).or_default().insert(c.ident.to_string());
                    }
                    Item::Struct(s) => {
                        for f in s.fields.iter() {
                            if let Some(i) = &f.ident {
                                let k = kind_of_type(&f.ty);
                                if let Some(t) = crate::inline::head_ty(&f.ty) {
                                    let e = ftys.entry(i.to_string()).or_insert(Some(t.clone()));
                                    if e.as_ref() != Some(&t) {
                                        *e = None;
                                    }
                                }
                                let e = fields.entry(i.to_string()).or_insert(k);
                                if *e != k {
                                    *e = None;
                                }
                            }
                        }
                        enums.push((
                            s.ident.to_string(),
                            derives(&s.attrs),
                            s.fields.iter().map(|f| f.ty.clone()).collect(),
                        ));
                    }
                    Item::Enum(s) => {
                        for f in s.variants.iter().flat_map(|v| v.fields.iter()) {
                            if let Some(i) = &f.ident {
                                let k = kind_of_type(&f.ty);
                                let e = fields.entry(i.to_string()).or_insert(k);
                                if *e != k {
                                    *e = None;
                                }
                            }
                        }
                        enums.push((
                            s.ident.to_string(),
                            derives(&s.attrs),
                            s.variants.iter().flat_map(|v| v.fields.iter()).map(|f| f.ty.clone()).collect(),
                        ));
                    }
                    Item::Fn(f) => {
                        note_fn(&f.sig);
                        let mut key = m.path.clone();
                        key.push(f.sig.ident.to_string());
                        all.push(FnRec {
                            key: key.join("::"),
                            module: m.path.clone(),
                            self_ty: None,
                            trait_: None,
                            sig: f.sig.clone(),
                            block: (*f.block).clone(),
                            is_pub: !matches!(f.vis, Visibility::Inherited),
 abs: Default::default(), contracted: false,
                        });
                    }
                    Item::Impl(i) => {
                        let tn = ty_name(&i.self_ty);
                        let tr = i.trait_.as_ref().map(|(_, p, _)| trait_name(p));
                        for x in &i.items {
                            if let ImplItem::Fn(f) = x {
                                if tr.is_none() {
                                    note_fn(&f.sig);
                                }
                                let mut key = m.path.clone();
                                key.push(tn.clone());
                                key.push(f.sig.ident.to_string());
                                all.push(FnRec {
                                    key: key.join("::"),
                                    module: m.path.clone(),
                                    self_ty: Some(tn.clone()),
                                    trait_: tr.clone(),
                                    sig: f.sig.clone(),
                                    block: f.block.clone(),
                                    is_pub: !matches!(f.vis, Visibility::Inherited),
 abs: Default::default(), contracted: false,
                                });
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
        // structural equality: fixpoint
        loop {
            let n = self.structural.len();
            for (name, d, tys) in &enums {
                let has = |x: &str| d.iter().any(|y| y == x);
                if has("PartialEq")
                    && has("Copy")
                    && tys.iter().all(|t| {
                        let s = ty_name(t);
                        self.structural.contains(&s)
                            || ["u8", "u16", "u32", "u64", "usize", "bool"].contains(&s.as_str())
                    })
                {
                    self.structural.insert(name.clone());
                }
            }
            if self.structural.len() == n {
                break;
            }
        }
        self.env.fn_kind = kinds.into_iter().filter_map(|(a, b)| b.map(|b| (a, b))).collect();
        self.env.fn_arity = arity.into_iter().filter_map(|(a, b)| b.map(|b| (a, b))).collect();
        self.env.field_kind = fields.into_iter().filter_map(|(a, b)| b.map(|b| (a, b))).collect();

        self.field_ty = ftys.into_iter().filter_map(|(a, b)| b.map(|b| (a, b))).collect();
        // which functions are under contract
        let mut claimed: BTreeSet<String> = Default::default();
        for f in &all {
            if self.c.fns.contains_key(&f.key) && !self.nocontract.contains(&f.key) {
                self.contracted.insert(f.key.clone(), f.key.clone());
                claimed.insert(f.key.clone());
            }
        }
        // moved functions: same type and name elsewhere
        for key in self.c.fns.keys() {
            if claimed.contains(key) || self.nocontract.contains(key) {
                continue;
            }
            let last = key.rsplit("::").next().unwrap();
            let c: Vec<&FnRec> = all
                .iter()
                .filter(|f| f.sig.ident == last && !self.contracted.contains_key(&f.key))
                .collect();
            if c.len() == 1 {
                self.contracted.insert(c[0].key.clone(), key.clone());
            } else {
                self.lost.insert(key.clone());
            }
        }
        // arity must match
        let mut bad = vec![];
        for f in &all {
            if let Some(ck) = self.contracted.get(&f.key) {
                let n = f.sig.inputs.iter().filter(|a| matches!(a, FnArg::Typed(_))).count();
                let p = &self.c.fns[ck].params;
                if p.len() != n {
                    bad.push((f.key.clone(), ck.clone()));
                }
            }
        }
        for (a, b) in bad {
            self.contracted.remove(&a);
            self.lost.insert(b);
        }
        let mut tables: BTreeMap<Vec<String>, BTreeMap<String, String>> = Default::default();
        for m in &self.k.modules {
            tables.insert(m.path.clone(), abs_table(m));
        }
        for mut f in all {
            f.abs = tables.get(&f.module).cloned().unwrap_or_default();
            f.contracted = self.contracted.contains_key(&f.key);
            if let Some(t) = &f.trait_ {
                if !INHERENT.contains(&t.as_str()) {
                    continue;
                }
            }
            self.helpers.entry(f.sig.ident.to_string()).or_default().push(f);
        }
    }

    fn locals(&self, mi: usize) -> BTreeSet<String> {
        let m = &self.k.modules[mi];
        let mut s = BTreeSet::new();
        for it in &m.items {
            match it {
                Item::Use(u) => {
                    let mut v = vec![];
                    use_paths(&u.tree, &mut vec![], &mut v);
                    for (p, n) in v {
                        // `use ring` itself does not make the name local
                        if !(p.len() == 1 && p[0] == n) {
                            s.insert(n);
                        }
                    }
                }
                Item::Fn(f) => {
                    s.insert(f.sig.ident.to_string());
                }
                Item::Struct(f) => {
                    s.insert(f.ident.to_string());
                }
                Item::Enum(f) => {
                    s.insert(f.ident.to_string());
                }
                _ => {}
            }
        }
        for o in &self.k.modules {
            if o.path.len() == m.path.len() + 1 && o.path.starts_with(&m.path) {
                s.insert(o.path.last().unwrap().clone());
            }
        }
        s
    }

    // ------------------------------------------------------------------ run
    pub fn run(&mut self) {
        self.collect();
        self.called = self.called_names();
        self.gone = self.gone_names();
        self.raw("#![feature(sized_hierarchy, allocator_api)]\n#![allow(unused, non_snake_case, dead_code)]\n#![verifier::loop_isolation(false)]\nuse vstd::prelude::*;\nverus!{\nglobal size_of usize == 8;\n");
        let p = std::mem::take(&mut self.prelude);
        self.raw_block("prelude", &p);
        let s = self.c.spec.clone();
        self.raw_block("spec", &s);
        self.module(0);
        self.raw("\nfn main() {}\n}\n");
    }

    fn module(&mut self, mi: usize) {
        let path = self.k.modules[mi].path.clone();
        self.cur_file = self.k.modules[mi].file.display().to_string();
        self.env.local_names = self.locals(mi);
        if let Some(n) = path.last() {
            self.nl();
            self.raw(&format!("pub mod {n} {{\n"));
        }
        if mi != 0 {
            self.raw("use vstd::prelude::*;\n");
        }
        self.raw("use crate::xstd::{XFull, XToBe, XIntoIter, Roomy};\nuse crate::spec::*;\nbroadcast use crate::spec::group_all;\n");
        let items = self.k.modules[mi].items.clone();
        for it in &items {
            self.item(mi, it);
        }
        if let Some(r) = self.c.raw.get(&path.join("::")).cloned() {
            self.raw_block("spec", &r);
        }
        let kids: Vec<usize> = (0..self.k.modules.len())
            .filter(|&o| {
                let q = &self.k.modules[o].path;
                q.len() == path.len() + 1 && q.starts_with(&path)
            })
            .collect();
        for o in kids {
            self.module(o);
        }
        if path.last().is_some() {
            self.nl();
            self.raw("}\n");
        }
    }

    fn item(&mut self, mi: usize, it: &Item) {
        let local = self.env.local_names.clone();
        let mut g = Generic { local: &local };
        match it {
            Item::Use(u) => {
                let mut v = vec![];
                use_paths(&u.tree, &mut vec![], &mut v);
                let vis = if matches!(u.vis, Visibility::Inherited) { "" } else { "pub " };
                for (p, name) in v {
                    let mut p = p;
                    let first = p[0].clone();
                    let full = p.join("::");
                    if ["zeroize", "log", "failure"].contains(&first.as_str())
                        || full.starts_with("std::fmt")
                        || full.starts_with("core::fmt")
                    {
                        self.dropped.insert(format!("use {full}"));
                        continue;
                    }
                    if ["crate", "super", "self"].contains(&first.as_str()) && self.gone.contains(p.last().unwrap()) {
                        continue;
                    }
                    let ext = EXTERN.contains(&first.as_str())
                        && (u.leading_colon.is_some() || !local.contains(&first));
                    if ext {
                        p.insert(0, "crate".into());
                    } else if (first == "std" || first == "core")
                        && p.len() > 1
                        && (p[1] == "io" || p[1] == "num")
                    {
                        p[0] = "xstd".into();
                        p.insert(0, "crate".into());
                    }
                    let last = p.last().unwrap().clone();
                    let s = if last == name {
                        format!("{vis}use {};\n", p.join("::"))
                    } else {
                        format!("{vis}use {} as {name};\n", p.join("::"))
                    };
                    self.nl();
                    self.raw(&s);
                }
            }
            Item::Const(c) => {
                let mut c = c.clone();
                c.vis = parse_quote!(pub);
                g.visit_item_const_mut(&mut c);
                let (n, ty, e) = (&c.ident, &c.ty, &c.expr);
                self.nl();
                if byte_like(ty) {
                    let mut lw = self.lower();
                    let mut e2 = (**e).clone();
                    lw.visit_expr_mut(&mut e2);
                    let elems: Option<Vec<Expr>> = bytes_of(&e2);
                    if let (Type::Reference(r), Some(v)) = (&**ty, &elems) {
                        let _ = r;
                        let len = v.len();
                        let pf = ext_eq();
                        self.ts(quote!(pub exec const #n: &'static [u8] ensures #n@ == seq![#(#v as u8),*] {
                            let a: &'static [u8; #len] = &[#(#v),*];
                            assert(a@ #pf seq![#(#v as u8),*]);
                            a
                        }));
                    } else if let (Type::Array(_), Some(v)) = (&**ty, &elems) {
                        let pf = ext_eq();
                        self.ts(quote!(pub exec const #n: #ty ensures #n@ == seq![#(#v as u8),*] {
                            let a: #ty = [#(#v),*];
                            assert(a@ #pf seq![#(#v as u8),*]);
                            a
                        }));
                    } else {
                        self.ts(quote!(pub const #n: #ty = #e2;));
                    }
                } else {
                    self.ts(quote!(pub const #n: #ty = #e;));
                }
            }
            Item::Static(c) => {
                self.dropped.insert(format!("static {}", c.ident));
            }
            Item::Type(t) => {
                let mut t = t.clone();
                t.vis = parse_quote!(pub);
                t.attrs.clear();
                g.visit_item_type_mut(&mut t);
                self.nl();
                self.ts(t.to_token_stream());
            }
            Item::Struct(s) => {
                let mut s = s.clone();
                let d = derives(&s.attrs);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                    f.attrs.clear();
                }
                g.visit_item_struct_mut(&mut s);
                self.derive(&s.ident, &s.generics, &d);
                self.ts(s.to_token_stream());
                self.derived_impls(&s.ident, &s.generics, &d);
            }
            Item::Enum(s) => {
                let mut s = s.clone();
                let d = derives(&s.attrs);
                s.attrs.clear();
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for f in v.fields.iter_mut() {
                        f.attrs.clear();
                    }
                }
                g.visit_item_enum_mut(&mut s);
                self.derive(&s.ident, &s.generics, &d);
                self.ts(s.to_token_stream());
                self.derived_impls(&s.ident, &s.generics, &d);
            }
            Item::Fn(f) => {
                let key = {
                    let mut k = self.k.modules[mi].path.clone();
                    k.push(f.sig.ident.to_string());
                    k.join("::")
                };
                self.function(mi, key, None, None, &f.sig, &f.block, &BTreeMap::new());
            }
            Item::Impl(i) => self.impl_(mi, i),
            Item::Trait(t) => {
                let mut t = t.clone();
                g.visit_item_trait_mut(&mut t);
                t.vis = parse_quote!(pub);
                self.nl();
                self.ts(t.to_token_stream());
            }
            Item::Macro(m) => {
                self.dropped.insert(format!("macro {}", m.mac.path.to_token_stream()));
            }
            Item::Mod(_) | Item::ExternCrate(_) => {}
            _ => {
                self.dropped.insert("item".into());
            }
        }
        self.nl();
    }

    fn derive(&mut self, id: &Ident, _g: &Generics, d: &[String]) {
        self.nl();
        let has = |x: &str| d.iter().any(|y| y == x);
        let mut v = vec![];
        if has("Copy") {
            v.push("Clone");
            v.push("Copy");
        }
        if !v.is_empty() {
            self.raw(&format!("#[derive({})]\n", v.join(", ")));
        }
        for x in d {
            if !v.contains(&x.as_str()) {
                self.dropped.insert(format!("derive({x}) of {id}"));
            }
        }
    }
    fn derived_impls(&mut self, id: &Ident, g: &Generics, d: &[String]) {
        let has = |x: &str| d.iter().any(|y| y == x);
        let (ig, tg, wc) = g.split_for_impl();
        self.nl();
        if self.structural.contains(&id.to_string()) {
            self.ts(quote!(
                impl vstd::std_specs::cmp::PartialEqSpecImpl for #id {
                    open spec fn obeys_eq_spec() -> bool { true }
                    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }
                }
                impl PartialEq for #id {
                    #[verifier::external_body]
                    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
                }
            ));
        }
        if has("Clone") && !has("Copy") {
            self.ts(quote!(impl #ig Clone for #id #tg #wc {
                #[verifier::external_body]
                fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
            }));
        }
        if has("Default") {
            self.ts(quote!(impl #ig #id #tg #wc {
                #[verifier::external_body]
                pub fn default() -> (r: Self) { unimplemented!() }
            }));
        }
    }

    fn impl_(&mut self, mi: usize, i: &ItemImpl) {
        let local = self.env.local_names.clone();
        let mut i = i.clone();
        Generic { local: &local }.visit_generics_mut(&mut i.generics);
        Generic { local: &local }.visit_type_mut(&mut i.self_ty);
        if let Some((_, p, _)) = &mut i.trait_ {
            Generic { local: &local }.visit_path_mut(p);
        }
        let tn = ty_name(&i.self_ty);
        let (ig, _, wc) = i.generics.split_for_impl();
        let st = &i.self_ty;
        let mut assoc: BTreeMap<String, Type> = BTreeMap::new();
        for x in &i.items {
            if let ImplItem::Type(t) = x {
                assoc.insert(t.ident.to_string(), t.ty.clone());
            }
        }
        let tr = i.trait_.as_ref().map(|(_, p, _)| trait_name(p));
        let head: TokenStream;
        let mut as_trait = None;
        match &tr {
            None => head = quote!(impl #ig #st #wc),
            Some(t) if INHERENT.contains(&t.as_str()) => head = quote!(impl #ig #st #wc),
            Some(t) if t == "From" => {
                let p = &i.trait_.as_ref().unwrap().1;
                head = quote!(impl #ig #p for #st #wc);
                as_trait = Some(t.clone());
                if let PathArguments::AngleBracketed(a) = &p.segments.last().unwrap().arguments {
                    let a0 = &a.args[0];
                    self.nl();
                    self.ts(quote!(impl #ig vstd::std_specs::convert::FromSpecImpl<#a0> for #st #wc {
                        open spec fn obeys_from_spec() -> bool { false }
                        open spec fn from_spec(v: #a0) -> Self { arbitrary() }
                    }));
                }
            }
            Some(t) => {
                // a trait of the crate itself is kept; others (Debug, Drop, ...) are dropped
                let own = self
                    .k
                    .modules
                    .iter()
                    .flat_map(|m| m.items.iter())
                    .any(|x| matches!(x, Item::Trait(y) if y.ident == t));
                if !own {
                    self.dropped.insert(format!("impl {t} for {tn}"));
                    return;
                }
                let p = &i.trait_.as_ref().unwrap().1;
                head = quote!(impl #ig #p for #st #wc);
                as_trait = Some(t.clone());
            }
        }
        // decide which functions are emitted before opening the block
        let base = {
            let mut k = self.k.modules[mi].path.clone();
            k.push(tn.clone());
            k.join("::")
        };
        self.nl();
        self.ts(head);
        self.raw("{\n");
        for x in &i.items {
            match x {
                ImplItem::Fn(f) => {
                    let key = format!("{base}::{}", f.sig.ident);
                    self.function(mi, key, Some(tn.clone()), as_trait.clone(), &f.sig, &f.block, &assoc);
                }
                ImplItem::Const(c) => {
                    let mut c = c.clone();
                    Generic { local: &local }.visit_impl_item_const_mut(&mut c);
                    c.vis = parse_quote!(pub);
                    self.nl();
                    self.ts(c.to_token_stream());
                }
                ImplItem::Type(t) if as_trait.is_some() => self.ts(t.to_token_stream()),
                _ => {}
            }
        }
        self.nl();
        self.raw("}\n");
    }

    fn lower(&self) -> Lower<'static> {
        let env: &'static Env = Box::leak(Box::new(self.env.clone()));
        Lower {
            env,
            slice_vars: Default::default(),
            loops: 0,
            n: 0,
            loop_src: vec![],
            loop_clauses: Default::default(),
            loops_without_decreases: false,
            loop_has_decreases: Default::default(),
        }
    }

    fn clause(&mut self, key: &str, c: &Clause, ren: &BTreeMap<String, String>) -> TokenStream {
        let n = self.clause_tab.len();
        self.clause_tab.push((key.to_string(), c.clone()));
        let t = TokenStream::from_str(&c.text)
            .unwrap_or_else(|e| panic!("contract of {key}: {e}: {}", c.text));
        let t = qualify(rename(t, ren), &self.spec_fns);
        let m = format_ident!("__CL{}__", n);
        if c.kind == "proof" {
            quote!(#m proof { #t } __CE__)
        } else {
            quote!(#m (#t), __CE__)
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn function(
        &mut self,
        mi: usize,
        key: String,
        self_ty: Option<String>,
        as_trait: Option<String>,
        sig: &Signature,
        block: &Block,
        assoc: &BTreeMap<String, Type>,
    ) {
        let ck = self.contracted.get(&key).cloned();
        let module = self.k.modules[mi].path.clone();
        if ck.is_none() && as_trait.is_none() {
            // a helper: emitted only as an opaque function, where a call could not be inlined
            let n = sig.ident.to_string();
            let called = self.called.contains(&n);
            if !called {
                self.not_emitted.insert(key);
                return;
            }
        }
        let fc = match &ck {
            Some(k) => self.c.fns[k].clone(),
            None => FnContract::default(),
        };
        let opaque = (ck.is_none() && as_trait.is_none()) || self.external.contains(&key);
        let mut sig = sig.clone();
        let mut body = block.clone();
        // Self::Assoc
        struct A<'a>(&'a BTreeMap<String, Type>);
        impl<'a> VisitMut for A<'a> {
            fn visit_type_mut(&mut self, t: &mut Type) {
                if let Type::Path(p) = t {
                    if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                        if let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) {
                            *t = x.clone();
                            return;
                        }
                    }
                }
                visit_mut::visit_type_mut(self, t);
            }
        }
        A(assoc).visit_signature_mut(&mut sig);
        A(assoc).visit_block_mut(&mut body);

        let env = self.env.clone();
        // stage 1 and 2 on this body, with helpers prepared the same way
        let (slice_vars, vars) = params_of(&sig);
        if !opaque {
            let helpers = self.prepared_helpers();
            let mut cb = Combinators { env: &env, vars: vec![vars], slice_vars: slice_vars.clone(), n: 0, notes: Default::default() };
            crate::chains::Chains::run(&sig, &mut body);
            cb.visit_block_mut(&mut body);
            let rec = FnRec {
                key: key.clone(),
                module: module.clone(),
                self_ty: self_ty.clone(),
                trait_: as_trait.clone(),
                sig: sig.clone(),
                block: body.clone(),
                is_pub: true, abs: Default::default(), contracted: false
            };
            let mut inl = Inliner { helpers: &helpers, cur: &rec, fields: &self.field_ty, done: Default::default(), failed: Default::default(), depth: 0, counter: 0 };
            inl.run(&mut body, true);
            let done: Vec<String> = inl.done.iter().cloned().collect();
            self.inlined.extend(done);
        }
        // contract clauses
        let actual: Vec<String> = sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some(match &*t.pat {
                    Pat::Ident(i) => i.ident.to_string(),
                    _ => "_".into(),
                }),
                _ => None,
            })
            .collect();
        let mut ren: BTreeMap<String, String> = BTreeMap::new();
        for (a, b) in fc.params.iter().zip(actual.iter()) {
            if a != b && b != "_" {
                ren.insert(a.clone(), b.clone());
            }
        }
        let mut lw = self.lower();
        lw.slice_vars = slice_vars;
        let mut req = TokenStream::new();
        let mut ens = TokenStream::new();
        let mut dec = TokenStream::new();
        let mut prf = TokenStream::new();
        let mut per_loop: BTreeMap<usize, Vec<Clause>> = BTreeMap::new();
        for c in &fc.clauses {
            if let Some(l) = c.lp {
                per_loop.entry(l).or_default().push(c.clone());
                continue;
            }
            let t = self.clause(&key, c, &ren);
            match c.kind.as_str() {
                "requires" => req.extend(t),
                "ensures" => ens.extend(t),
                "decreases" => dec.extend(t),
                "proof" => prf.extend(t),
                _ => panic!("{key}: {} outside a loop", c.kind),
            }
        }
        if !opaque {
            for (l, cs) in per_loop {
                let mut inv = TokenStream::new();
                let mut le = TokenStream::new();
                let mut d = TokenStream::new();
                for c in &cs {
                    let t = self.clause(&key, c, &ren);
                    match c.kind.as_str() {
                        "invariant" => inv.extend(t),
                        "ensures" => le.extend(t),
                        "decreases" => d.extend(t),
                        _ => panic!("{key}: {} in a loop", c.kind),
                    }
                }
                let mut t = TokenStream::new();
                if !inv.is_empty() {
                    t.extend(quote!(invariant #inv));
                }
                if !le.is_empty() {
                    t.extend(quote!(ensures #le));
                }
                if !d.is_empty() {
                    t.extend(quote!(decreases #d));
                    lw.loop_has_decreases.insert(l);
                }
                lw.loop_clauses.insert(l, t);
            }
        }
        // lower body and signature
        if !opaque {
            lw.visit_block_mut(&mut body);
        }
        lw.visit_signature_mut(&mut sig);
        Generic { local: &env.local_names }.visit_generics_mut(&mut sig.generics);
        let ident = sig.ident.clone();
        let gens = &sig.generics;
        let wc = &sig.generics.where_clause;
        let inputs = &sig.inputs;
        let ret: TokenStream = match (&fc.ret, &sig.output) {
            (Some(r), _) => {
                let t = TokenStream::from_str(r).unwrap();
                quote!(-> (ret: #t))
            }
            (None, ReturnType::Default) => {
                if ens.is_empty() {
                    quote!()
                } else {
                    quote!()
                }
            }
            (None, ReturnType::Type(_, t)) => quote!(-> (ret: #t)),
        };
        let mut attrs = TokenStream::new();
        for a in &fc.attrs {
            attrs.extend(TokenStream::from_str(a).unwrap());
        }
        if opaque {
            attrs.extend(quote!(#[verifier::external_body]));
        } else if lw.loops_without_decreases {
            attrs.extend(quote!(#[verifier::exec_allows_no_decreases_clause]));
        }
        let vis = if as_trait.is_some() { quote!() } else { quote!(pub) };
        let reqs = if req.is_empty() { quote!() } else { quote!(requires #req) };
        let enss = if ens.is_empty() { quote!() } else { quote!(ensures #ens) };
        let decs = if dec.is_empty() { quote!() } else { quote!(decreases #dec) };
        let stmts = &body.stmts;
        let b = if opaque { quote!({ unimplemented!() }) } else { quote!({ #prf #(#stmts)* }) };
        let constness = &sig.constness;
        let _ = constness;
        self.nl();
        let l0 = self.line;
        self.ts(quote!(#attrs #vis fn #ident #gens (#inputs) #ret #wc #reqs #enss #decs #b));
        self.nl();
        let src = sig.ident.span().start().line;
        self.fns.push(json!({
            "key": key, "contract": ck, "l0": l0, "l1": self.line - 1, "file": self.cur_file, "line": src,
            "external": opaque, "loops": lw.loops, "loop_src": lw.loop_src, "loops_without_decreases": lw.loops_without_decreases,
            "clauses": fc.clauses.len(), "tags": fc.tags, "name": ident.to_string(),
        }));
        if self.vacuity && !opaque && as_trait.is_none() && ck.is_some() {
            let vid = format_ident!("{}__vac", ident);
            let l0 = self.line;
            self.ts(quote!(#attrs pub fn #vid #gens (#inputs) #ret #wc #reqs ensures false, #decs #b));
            self.nl();
            self.fns.push(json!({
                "key": format!("{key}__vac"), "contract": ck, "l0": l0, "l1": self.line - 1, "file": self.cur_file,
                "line": src, "external": false, "vac": true, "tags": [], "name": vid.to_string(),
            }));
        }
        let _ = in_slice;
    }

    fn gone_names(&self) -> BTreeSet<String> {
        let (mut here, mut free) = (BTreeSet::new(), BTreeSet::new());
        for m in &self.k.modules {
            for it in &m.items {
                if let Item::Fn(f) = it {
                    let n = f.sig.ident.to_string();
                    let mut k = m.path.clone();
                    k.push(n.clone());
                    if self.contracted.contains_key(&k.join("::")) || self.called.contains(&n) {
                        here.insert(n.clone());
                    }
                    free.insert(n);
                }
            }
        }
        free.difference(&here).cloned().collect()
    }

    /// names called anywhere in emitted bodies after inlining would be precise; this is a superset
    fn called_names(&self) -> BTreeSet<String> {
        // helpers that could not be inlined are discovered by a dry run
        let mut s = BTreeSet::new();
        let helpers = self.prepared_helpers();
        for m in &self.k.modules {
            let mut todo: Vec<(String, Option<String>, Signature, Block)> = vec![];
            for it in &m.items {
                match it {
                    Item::Fn(f) => {
                        let mut k = m.path.clone();
                        k.push(f.sig.ident.to_string());
                        todo.push((k.join("::"), None, f.sig.clone(), (*f.block).clone()));
                    }
                    Item::Impl(i) => {
                        for x in &i.items {
                            if let ImplItem::Fn(f) = x {
                                let mut k = m.path.clone();
                                k.push(ty_name(&i.self_ty));
                                k.push(f.sig.ident.to_string());
                                todo.push((k.join("::"), Some(ty_name(&i.self_ty)), f.sig.clone(), f.block.clone()));
                            }
                        }
                    }
                    _ => {}
                }
            }
            for (key, st, sig, mut body) in todo {
                if !self.contracted.contains_key(&key) || self.external.contains(&key) {
                    continue;
                }
                let (sv, vars) = params_of(&sig);
                crate::chains::Chains::run(&sig, &mut body);
                Combinators { env: &self.env, vars: vec![vars], slice_vars: sv, n: 0, notes: Default::default() }
                    .visit_block_mut(&mut body);
                let rec = FnRec { key, module: m.path.clone(), self_ty: st, trait_: None, sig, block: body.clone(), is_pub: true, abs: Default::default(), contracted: false };
                let mut inl = Inliner { helpers: &helpers, cur: &rec, fields: &self.field_ty, done: Default::default(), failed: Default::default(), depth: 0, counter: 0 };
                inl.run(&mut body, true);
                for f in inl.failed {
                    s.insert(f.rsplit("::").next().unwrap().to_string());
                }
                // function values (`.map(helper)`) and paths that were not calls
                for t in body.to_token_stream().into_iter().flat_map(idents) {
                    if helpers.get(&t).map_or(false, |v| v.iter().any(|f| !f.contracted)) {
                        s.insert(t);
                    }
                }
            }
        }
        s
    }

    fn prepared_helpers(&self) -> BTreeMap<String, Vec<FnRec>> {
        let mut h = self.helpers.clone();
        for v in h.values_mut() {
            for f in v.iter_mut() {
                let (sv, vars) = params_of(&f.sig);
                let mut cb = Combinators { env: &self.env, vars: vec![vars], slice_vars: sv, n: 500, notes: Default::default() };
                crate::chains::Chains::run(&f.sig, &mut f.block);
                cb.visit_block_mut(&mut f.block);
            }
        }
        h
    }
}

/// name -> absolute path, for every item and import of a module
fn abs_table(m: &crate::load::Module) -> BTreeMap<String, String> {
    let mut t = BTreeMap::new();
    let here = |n: &str| {
        let mut v = vec!["crate".to_string()];
        v.extend(m.path.iter().cloned());
        v.push(n.to_string());
        v.join("::")
    };
    for it in &m.items {
        match it {
            Item::Const(c) => drop(t.insert(c.ident.to_string(), here(&c.ident.to_string()))),
            Item::Struct(c) => drop(t.insert(c.ident.to_string(), here(&c.ident.to_string()))),
            Item::Enum(c) => drop(t.insert(c.ident.to_string(), here(&c.ident.to_string()))),
            Item::Type(c) => drop(t.insert(c.ident.to_string(), here(&c.ident.to_string()))),
            Item::Fn(c) => drop(t.insert(c.sig.ident.to_string(), here(&c.sig.ident.to_string()))),
            Item::Use(u) => {
                let mut v = vec![];
                use_paths(&u.tree, &mut vec![], &mut v);
                for (mut p, n) in v {
                    if n == "*" {
                        continue;
                    }
                    let f = p[0].clone();
                    if f == "self" {
                        p.remove(0);
                        let mut q = vec!["crate".to_string()];
                        q.extend(m.path.iter().cloned());
                        q.extend(p);
                        p = q;
                    } else if f == "super" {
                        p.remove(0);
                        let mut q = vec!["crate".to_string()];
                        q.extend(m.path[..m.path.len() - 1].iter().cloned());
                        q.extend(p);
                        p = q;
                    }
                    t.insert(n, p.join("::"));
                }
            }
            _ => {}
        }
    }
    t
}

fn ext_eq() -> TokenStream {
    TokenStream::from_str("=~=").unwrap()
}

fn idents(t: TokenTree) -> Vec<String> {
    match t {
        TokenTree::Group(g) => g.stream().into_iter().flat_map(idents).collect(),
        TokenTree::Ident(i) => vec![i.to_string()],
        _ => vec![],
    }
}

fn params_of(sig: &Signature) -> (BTreeSet<String>, BTreeMap<String, Kind>) {
    let mut s = BTreeSet::new();
    let mut k = BTreeMap::new();
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &*t.pat {
                if let Type::Reference(r) = &*t.ty {
                    if byte_like(&r.elem) {
                        s.insert(i.ident.to_string());
                    }
                }
                if let Some(x) = kind_of_type(&t.ty) {
                    k.insert(i.ident.to_string(), x);
                }
            }
        }
    }
    (s, k)
}

/// calls of the specification's functions by their full path: the code's own names do not shadow them
fn qualify(t: TokenStream, fns: &BTreeSet<String>) -> TokenStream {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut out = TokenStream::new();
    for i in 0..v.len() {
        let free = i == 0 || !matches!(v[i - 1].to_string().as_str(), "." | ":" | "fn");
        match (&v[i], v.get(i + 1)) {
            (TokenTree::Ident(x), Some(TokenTree::Group(g)))
                if g.delimiter() == proc_macro2::Delimiter::Parenthesis && free && fns.contains(&x.to_string()) =>
            {
                out.extend(quote!(crate::spec::#x));
            }
            (TokenTree::Group(g), _) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), qualify(g.stream(), fns));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            (t, _) => out.extend([t.clone()]),
        }
    }
    out
}

fn rename(t: TokenStream, ren: &BTreeMap<String, String>) -> TokenStream {
    if ren.is_empty() {
        return t;
    }
    t.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                TokenTree::Group(proc_macro2::Group::new(g.delimiter(), rename(g.stream(), ren)))
            }
            TokenTree::Ident(i) => match ren.get(&i.to_string()) {
                Some(n) => TokenTree::Ident(Ident::new(n, i.span())),
                None => TokenTree::Ident(i),
            },
            x => x,
        })
        .collect()
}

fn bytes_of(e: &Expr) -> Option<Vec<Expr>> {
    match e {
        Expr::Reference(r) => bytes_of(&r.expr),
        Expr::Array(a) => {
            if a.elems.iter().all(|x| matches!(x, Expr::Lit(_))) {
                Some(a.elems.iter().cloned().collect())
            } else {
                None
            }
        }
        Expr::Paren(p) => bytes_of(&p.expr),
        _ => None,
    }
}
