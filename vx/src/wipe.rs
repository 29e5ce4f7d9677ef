//! C21: from the macro-expanded source, the drop glue of every type that holds a secret, as Verus code.
//!
//! The bodies of `Drop::drop` and `Zeroize::zeroize` are the expanded crate's own; the glue that drops the
//! fields afterwards follows the type's definition, as the language defines it.
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;

pub const NAMED: &[&str] = &["Seed32", "Seed48", "Seed64", "SharedSecret", "SecretKey", "EncryptAlgoWithSecretKey"];
pub const LAYERS: &[&str] = &["MinimalSecureLayer", "SecureLayer"];

#[derive(Default)]
struct Src {
    types: BTreeMap<String, syn::Item>,
    zeroize: BTreeMap<String, syn::Block>,
    drop: BTreeMap<String, syn::Block>,
    methods: BTreeMap<String, Vec<(String, syn::Block)>>,
    consts: BTreeMap<String, syn::ItemConst>,
    leaks: Vec<String>,
    twice: BTreeSet<String>,
}

fn self_name(t: &syn::Type) -> Option<String> {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        _ => None,
    }
}

impl<'ast> Visit<'ast> for Src {
    fn visit_item(&mut self, i: &'ast syn::Item) {
        match i {
            syn::Item::Struct(syn::ItemStruct { ident, .. }) | syn::Item::Enum(syn::ItemEnum { ident, .. }) => {
                if self.types.insert(ident.to_string(), i.clone()).is_some() {
                    self.twice.insert(ident.to_string());
                }
            }
            syn::Item::Const(c) => {
                self.consts.insert(c.ident.to_string(), c.clone());
            }
            _ => {}
        }
        syn::visit::visit_item(self, i);
    }
    fn visit_item_impl(&mut self, i: &'ast syn::ItemImpl) {
        if let (Some((_, p, _)), Some(n)) = (&i.trait_, self_name(&i.self_ty)) {
            let t = p.segments.last().unwrap().ident.to_string();
            for f in &i.items {
                if let syn::ImplItem::Fn(f) = f {
                    match (t.as_str(), f.sig.ident.to_string().as_str()) {
                        ("Drop", "drop") => drop(self.drop.insert(n.clone(), f.block.clone())),
                        ("Zeroize", "zeroize") => drop(self.zeroize.insert(n.clone(), f.block.clone())),
                        _ => {}
                    }
                }
            }
        }
        if let (None, Some(n)) = (&i.trait_, self_name(&i.self_ty)) {
            for f in &i.items {
                if let syn::ImplItem::Fn(f) = f {
                    let only_self = f.sig.inputs.len() == 1 && matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.mutability.is_some() && r.reference.is_some());
                    if only_self && matches!(f.sig.output, syn::ReturnType::Default) {
                        self.methods.entry(n.clone()).or_default().push((f.sig.ident.to_string(), f.block.clone()));
                    }
                }
            }
        }
        syn::visit::visit_item_impl(self, i);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let (l, k) = (s.last().unwrap().as_str(), if s.len() > 1 { s[s.len() - 2].as_str() } else { "" });
        if (l == "forget" && (k == "mem" || k.is_empty()))
            || k == "ManuallyDrop"
            || (matches!(l, "leak" | "into_raw") && matches!(k, "Box" | "Vec" | "Rc" | "Arc"))
            || (matches!(l, "read" | "copy_nonoverlapping") && k == "ptr")
        {
            self.leaks.push(s.join("::"));
        }
        syn::visit::visit_path(self, p);
    }
}

/// loops, returns and unsafe code in a drop body are beyond this extraction
#[derive(Default)]
struct Hard(Vec<&'static str>);
impl<'ast> Visit<'ast> for Hard {
    fn visit_expr(&mut self, e: &'ast syn::Expr) {
        match e {
            syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_) => self.0.push("loop"),
            syn::Expr::Return(_) => self.0.push("return"),
            syn::Expr::Unsafe(_) => self.0.push("unsafe"),
            syn::Expr::Closure(_) => self.0.push("closure"),
            syn::Expr::Macro(_) => self.0.push("macro"),
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
}

struct Flat<'a>(&'a BTreeMap<String, syn::Item>);
impl VisitMut for Flat<'_> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        let n = p.segments.len();
        if n > 1 {
            for k in (0..n).rev() {
                let s = p.segments[k].ident.to_string();
                if self.0.contains_key(&s) || (s == "Zeroize" && k + 2 == n) {
                    p.leading_colon = None;
                    p.segments = p.segments.iter().skip(k).cloned().collect();
                    break;
                }
            }
        }
        syn::visit_mut::visit_path_mut(self, p);
    }
}

struct Em {
    s: Src,
    out: String,
    line: usize,
    fns: Vec<serde_json::Value>,
    undecided: Vec<String>,
    bearing: BTreeSet<String>,
    all: BTreeSet<String>,
    weak: Vec<String>,
    weak_drop: Vec<String>,
}

impl Em {
    fn put(&mut self, t: &str) {
        self.out.push_str(t);
        self.out.push('\n');
        self.line += t.matches('\n').count() + 1;
    }
    fn fields(i: &syn::Item) -> Vec<(String, Vec<(String, syn::Type)>)> {
        let fs = |f: &syn::Fields| {
            f.iter()
                .enumerate()
                .map(|(k, f)| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or(k.to_string()), f.ty.clone()))
                .collect::<Vec<_>>()
        };
        match i {
            syn::Item::Struct(s) => vec![(String::new(), fs(&s.fields))],
            syn::Item::Enum(e) => e.variants.iter().map(|v| (v.ident.to_string(), fs(&v.fields))).collect(),
            _ => vec![],
        }
    }
    fn mentions(&self, t: &syn::Type, set: &BTreeSet<String>) -> bool {
        struct M<'a>(&'a BTreeSet<String>, bool);
        impl<'ast> Visit<'ast> for M<'_> {
            fn visit_path_segment(&mut self, s: &'ast syn::PathSegment) {
                self.1 |= self.0.contains(&s.ident.to_string());
                syn::visit::visit_path_segment(self, s);
            }
        }
        let mut m = M(set, false);
        m.visit_type(t);
        m.1
    }
    /// the type as emitted, or None when it is beyond the extraction
    fn ty(&self, t: &syn::Type) -> Option<String> {
        match t {
            syn::Type::Array(a) => {
                let e = self.ty(&a.elem)?;
                let n = match &a.len {
                    syn::Expr::Lit(l) => l.to_token_stream().to_string(),
                    syn::Expr::Path(p) => {
                        let c = self.s.consts.get(&p.path.segments.last()?.ident.to_string())?;
                        match &*c.expr {
                            syn::Expr::Lit(l) => l.to_token_stream().to_string(),
                            _ => return None,
                        }
                    }
                    _ => return None,
                };
                (e == "u8").then(|| format!("[u8; {n}]"))
            }
            syn::Type::Path(p) => {
                let s = p.path.segments.last()?;
                let n = s.ident.to_string();
                let mut args = vec![];
                if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in &a.args {
                        match g {
                            syn::GenericArgument::Type(t) => args.push(self.ty(t)?),
                            _ => return None,
                        }
                    }
                }
                match (n.as_str(), args.len()) {
                    ("u8" | "u16" | "u32" | "u64" | "u128" | "usize" | "i32" | "i64" | "bool" | "char", 0) => Some(n),
                    ("Vec" | "Option" | "Box" | "Zeroizing" | "ManuallyDrop", 1) => Some(format!("{n}<{}>", args[0])),
                    ("PhantomData", 1) => Some("()".into()),
                    _ if self.all.contains(&n) && args.is_empty() => Some(n),
                    _ => None,
                }
            }
            syn::Type::Paren(p) => self.ty(&p.elem),
            syn::Type::Group(p) => self.ty(&p.elem),
            _ => None,
        }
    }
    fn body(&mut self, name: &str, b: &syn::Block) -> Option<String> {
        let mut h = Hard::default();
        h.visit_block(b);
        if !h.0.is_empty() {
            self.undecided.push(format!("{name}: {} in a body that wipes", h.0.join(", ")));
            return None;
        }
        let mut b = b.clone();
        Flat(&self.s.types).visit_block_mut(&mut b);
        Some(b.to_token_stream().to_string())
    }
    fn emit_type(&mut self, name: &str) {
        let i = self.s.types[name].clone();
        let named = NAMED.contains(&name);
        let goal = named || self.bearing.contains(name);
        // in a type that stores a secret every field counts, in one that contains such a value only those
        let whole = named || !self.bearing.contains(name);
        let vs = Self::fields(&i);
        let is_enum = matches!(i, syn::Item::Enum(_));
        let (mut def, mut wip, mut glue) = (String::new(), String::new(), String::new());
        let mut ok = true;
        for (v, fs) in &vs {
            let tuple = fs.first().map_or(false, |f| f.0.chars().all(|c| c.is_ascii_digit()));
            let (mut d, mut pat, mut w, mut g) = (vec![], vec![], vec![], vec![]);
            for (f, t) in fs {
                let count = whole || self.mentions(t, &self.all);
                let r = if count { self.ty(t) } else { Some("Other".into()) };
                let r = match r {
                    Some(r) => r,
                    None => {
                        self.undecided.push(format!("{name}: field {f} has a type beyond the extraction"));
                        ok = false;
                        "Other".into()
                    }
                };
                let x = if tuple { format!("x{f}") } else { f.clone() };
                d.push(if tuple { r.clone() } else { format!("{f}: {r}") });
                pat.push(x.clone());
                let acc = if is_enum { x.clone() } else { format!("self.{f}") };
                if r != "Other" {
                    w.push(format!("{acc}.wiped()"));
                    g.push(format!("{acc}.glue();"));
                }
            }
            let (o, c) = if fs.is_empty() { ("", "") } else if tuple { ("(", ")") } else { ("{ ", " }") };
            let w = if w.is_empty() { "true".to_string() } else { w.join(" && ") };
            if is_enum {
                def += &format!("{v}{o}{}{c}, ", d.join(", "));
                let pat = format!("{name}::{v}{o}{}{c}", pat.join(", "));
                wip += &format!("{pat} => {w}, ");
                glue += &format!("{pat} => {{ {} }}, ", g.join(" "));
            } else {
                def = format!("{o}{}{c}", d.join(", "));
                wip = w;
                glue = g.join(" ");
            }
        }
        if is_enum {
            def = format!("pub enum {name} {{ {def} }}");
            wip = format!("match self {{ {wip} }}");
            glue = format!("match self {{ {glue} }}");
        } else {
            def = if def.starts_with('(') || def.is_empty() { format!("pub struct {name}{def};") } else { format!("pub struct {name} {def}") };
        }
        self.put(&def);
        self.put(&format!("impl Wiped for {name} {{ closed spec fn wiped(&self) -> bool {{ {wip} }} }}"));
        if let Some(b) = self.s.zeroize.get(name).cloned() {
            if let Some(b) = self.body(name, &b) {
                let post = if self.weak.iter().any(|x| x == name) { "true" } else { "n.wiped()" };
                let l0 = self.line + 1;
                self.put(&format!("impl Zeroize for {name} {{\n    open spec fn zpost(o: Self, n: Self) -> bool {{ {post} }}\n    fn zeroize(&mut self) {b}\n}}"));
                self.fns.push(serde_json::json!({"key": format!("{name}::zeroize"), "type": name, "goal": false, "l0": l0, "l1": self.line}));
            } else {
                ok = false;
            }
        }
        // helpers the bodies call
        for (f, b) in self.s.methods.get(name).cloned().unwrap_or_default() {
            let used = [self.s.drop.get(name), self.s.zeroize.get(name)].into_iter().flatten().any(|x| x.to_token_stream().to_string().contains(&format!(". {f} (")));
            if used {
                match self.body(name, &b) {
                    Some(b) => {
                        let key = format!("{name}::{f}");
                        let post = if self.weak.iter().any(|x| *x == key) { "true" } else { "final(self).wiped()" };
                        let l0 = self.line + 1;
                        self.put(&format!("impl {name} {{\n    fn {f}(&mut self)\n        ensures {post}\n    {b}\n}}"));
                        self.fns.push(serde_json::json!({"key": key, "type": key, "goal": false, "helper": true, "l0": l0, "l1": self.line}));
                    }
                    None => ok = false,
                }
            }
        }
        let mut d = String::new();
        if let Some(b) = self.s.drop.get(name).cloned() {
            match self.body(name, &b) {
                Some(b) => d = b,
                None => ok = false,
            }
        }
        // what a type a secret type is made of is known to leave is a support contract
        let post = if goal || !self.weak_drop.iter().any(|x| x == name) { "n.wiped()" } else { "o.wiped() ==> n.wiped()" };
        let l0 = self.line + 1;
        self.put(&format!("impl Glue for {name} {{\n    open spec fn gpost(o: Self, n: Self) -> bool {{ {post} }}\n    fn glue(&mut self) {{ {d} {glue} }}\n}}"));
        self.fns.push(serde_json::json!({"key": format!("{name}::drop"), "type": name, "goal": goal, "l0": l0, "l1": self.line, "complete": ok,
            "own_drop": self.s.drop.contains_key(name)}));
    }
}

pub fn run(expanded: &str, prelude: &str, weak: Vec<String>, weak_drop: Vec<String>) -> Result<(String, serde_json::Value), String> {
    let f = syn::parse_file(expanded).map_err(|e| e.to_string())?;
    let mut s = Src::default();
    s.visit_file(&f);
    let mut missing = vec![];
    for n in NAMED.iter().chain(LAYERS) {
        if !s.types.contains_key(*n) {
            missing.push(format!("no type {n}"));
        }
    }
    let leaks = s.leaks.clone();
    let mut em = Em { s, out: String::new(), line: 0, fns: vec![], undecided: missing, bearing: Default::default(), all: Default::default(), weak, weak_drop };
    em.all = NAMED.iter().map(|s| s.to_string()).filter(|n| em.s.types.contains_key(n)).collect();
    // types that contain a named one; then what the named ones are made of
    loop {
        let more: Vec<String> = em.s.types.iter().filter(|(n, i)| !em.all.contains(*n) && Em::fields(i).iter().any(|(_, fs)| fs.iter().any(|(_, t)| em.mentions(t, &em.all)))).map(|(n, _)| n.clone()).collect();
        if more.is_empty() {
            break;
        }
        for m in more {
            em.bearing.insert(m.clone());
            em.all.insert(m);
        }
    }
    let types: BTreeSet<String> = em.s.types.keys().cloned().collect();
    let mut todo: Vec<String> = em.all.iter().filter(|n| !em.bearing.contains(*n)).cloned().collect();
    while let Some(n) = todo.pop() {
        for (_, fs) in Em::fields(&em.s.types[&n]) {
            for (_, t) in fs {
                for m in types.iter() {
                    if em.mentions(&t, &[m.clone()].into_iter().collect()) && em.all.insert(m.clone()) {
                        todo.push(m.clone());
                    }
                }
            }
        }
    }
    for n in em.all.clone() {
        if em.s.twice.contains(&n) {
            em.undecided.push(format!("two types named {n}"));
        }
    }
    em.put(prelude.trim_end());
    em.put("verus! {");
    for n in em.all.clone() {
        em.emit_type(&n);
    }
    em.put("fn main() { }\n}");
    let map = serde_json::json!({"fns": em.fns, "undecided": em.undecided, "leaks": leaks, "types": em.all, "containers": em.bearing,
        "own_drop": em.s.drop.keys().collect::<Vec<_>>(), "own_zeroize": em.s.zeroize.keys().collect::<Vec<_>>()});
    Ok((em.out, map))
}
