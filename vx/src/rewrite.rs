//! Mechanical, meaning-preserving rewriting of expressions Verus does not accept.
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub const EXTERN: &[&str] = &[
    "ring", "flate2", "chacha20_poly1305_aead", "bincode", "serde", "serde_cbor", "serde_json",
];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Opt,
    Res,
}

#[derive(Default, Clone)]
pub struct Env {
    /// constants that are byte strings or byte arrays
    pub byte_consts: BTreeSet<String>,
    /// names visible in the current module (items, submodules, imports)
    pub local_names: BTreeSet<String>,
    /// fields and functions with a known Option/Result type
    pub field_kind: BTreeMap<String, Kind>,
    pub fn_kind: BTreeMap<String, Kind>,
    pub fn_arity: BTreeMap<String, usize>,
}

pub fn kind_of_type(t: &Type) -> Option<Kind> {
    match t {
        Type::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() {
            "Option" => Some(Kind::Opt),
            "Result" => Some(Kind::Res),
            _ => None,
        },
        Type::Reference(r) => kind_of_type(&r.elem),
        Type::Paren(p) => kind_of_type(&p.elem),
        _ => None,
    }
}

pub fn lit_bytes(s: &LitByteStr) -> Expr {
    let v = s.value();
    parse_quote!(&[#(#v),*])
}

/// stage 1: combinators with closures become matches; macros become calls
pub struct Combinators<'a> {
    pub env: &'a Env,
    pub vars: Vec<BTreeMap<String, Kind>>,
    pub slice_vars: BTreeSet<String>,
    pub n: usize,
    pub notes: BTreeSet<String>,
}

/// `X` of `X.iter()`
fn iter_base(e: &Expr) -> Option<Expr> {
    match e {
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => Some((*m.receiver).clone()),
        _ => None,
    }
}

/// `|x| *x == y`, `|x| x == &y` and the like (with `neg`, `!=`): a reference to y
fn eq_closure(f: &Expr, neg: bool) -> Option<Expr> {
    let c = match f {
        Expr::Closure(c) if c.inputs.len() == 1 => c,
        _ => return None,
    };
    let (id, mut by_ref) = match &c.inputs[0] {
        Pat::Ident(i) if i.subpat.is_none() => (i.ident.to_string(), true),
        Pat::Reference(r) => match &*r.pat {
            Pat::Ident(i) if i.subpat.is_none() => (i.ident.to_string(), false),
            _ => return None,
        },
        _ => return None,
    };
    let mut body = &*c.body;
    while let Expr::Block(b) = body {
        match &b.block.stmts[..] {
            [Stmt::Expr(e, None)] => body = e,
            _ => return None,
        }
    }
    let b = match body {
        Expr::Binary(b) => b,
        _ => return None,
    };
    match (&b.op, neg) {
        (BinOp::Eq(_), false) | (BinOp::Ne(_), true) => {}
        _ => return None,
    }
    let is_x = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident(&id));
    let mut side = |e: &Expr| -> bool {
        if is_x(e) {
            return true;
        }
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if is_x(expr) && by_ref {
                by_ref = false;
                return true;
            }
        }
        false
    };
    let y: &Expr = if side(&b.left) { &*b.right } else if side(&b.right) { &*b.left } else { return None };
    struct Uses<'a>(&'a str, bool);
    impl<'a, 'ast> syn::visit::Visit<'ast> for Uses<'a> {
        fn visit_ident(&mut self, i: &'ast Ident) {
            self.1 |= i == self.0;
        }
    }
    let mut u = Uses(&id, false);
    syn::visit::Visit::visit_expr(&mut u, y);
    if u.1 {
        return None;
    }
    Some(if by_ref { y.clone() } else { parse_quote!(&#y) })
}

impl<'a> Combinators<'a> {
    /// the kinds of the variables a struct pattern binds
    fn binders(&self, p: &Pat) -> BTreeMap<String, Kind> {
        let mut m = BTreeMap::new();
        match p {
            Pat::Struct(s) => {
                for f in &s.fields {
                    if let (Member::Named(n), Pat::Ident(i)) = (&f.member, &*f.pat) {
                        if let (None, Some(k)) = (&i.subpat, self.env.field_kind.get(&n.to_string())) {
                            m.insert(i.ident.to_string(), *k);
                        }
                    } else {
                        m.extend(self.binders(&f.pat));
                    }
                }
            }
            Pat::TupleStruct(t) => t.elems.iter().for_each(|x| m.extend(self.binders(x))),
            Pat::Tuple(t) => t.elems.iter().for_each(|x| m.extend(self.binders(x))),
            Pat::Reference(r) => m = self.binders(&r.pat),
            Pat::Paren(r) => m = self.binders(&r.pat),
            Pat::Or(o) => o.cases.iter().for_each(|x| m.extend(self.binders(x))),
            _ => {}
        }
        m
    }
    fn kind(&self, e: &Expr) -> Option<Kind> {
        match e {
            Expr::Paren(p) => self.kind(&p.expr),
            Expr::Reference(r) => self.kind(&r.expr),
            Expr::Field(f) => match &f.member {
                Member::Named(n) => self.env.field_kind.get(&n.to_string()).copied(),
                _ => None,
            },
            Expr::Path(p) => {
                let n = p.path.get_ident()?.to_string();
                if n == "None" {
                    return Some(Kind::Opt);
                }
                for m in self.vars.iter().rev() {
                    if let Some(k) = m.get(&n) {
                        return Some(*k);
                    }
                }
                None
            }
            Expr::Match(m) => m.arms.iter().find_map(|a| self.kind(&a.body)),
            Expr::If(i) => match (i.then_branch.stmts.last(), &i.else_branch) {
                (Some(Stmt::Expr(e, None)), Some((_, f))) => self.kind(e).or_else(|| self.kind(f)),
                _ => None,
            },
            Expr::Block(b) => match b.block.stmts.last() {
                Some(Stmt::Expr(e, None)) => self.kind(e),
                _ => None,
            },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last()?.ident.to_string();
                    match n.as_str() {
                        "Some" => return Some(Kind::Opt),
                        "Ok" | "Err" => return Some(Kind::Res),
                        "encrypt_read" => return Some(Kind::Res),
                        _ => {}
                    }
                    return self.env.fn_kind.get(&n).copied();
                }
                None
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                match n.as_str() {
                    "take" | "as_ref" | "as_mut" | "as_deref" | "filter" | "clone" | "cloned" | "copied"
                        if self.kind(&m.receiver) == Some(Kind::Opt) =>
                    {
                        Some(Kind::Opt)
                    }
                    "as_ref" if self.kind(&m.receiver).is_some() => self.kind(&m.receiver),
                    "get" | "first" | "last" | "checked_add" | "checked_sub" | "checked_mul" | "ok" | "err"
                    | "pop" | "pop_front" | "next" => Some(Kind::Opt),
                    "write" | "write_all" | "flush" | "into_inner" | "finish" | "ok_or" | "ok_or_else"
                    | "verify" | "map_err" | "compute_public_key" => Some(Kind::Res),
                    "map" | "and_then" | "or_else" | "or" | "filter" | "inspect" => self.kind(&m.receiver),
                    _ => self.env.fn_kind.get(&n).copied(),
                }
            }
            _ => None,
        }
    }
    fn apply(&mut self, f: &Expr, args: &[Ident]) -> Option<Expr> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != args.len() {
                    return None;
                }
                let body = &c.body;
                let mut lets = TokenStream::new();
                for (p, a) in c.inputs.iter().zip(args) {
                    match p {
                        Pat::Wild(_) => {}
                        Pat::Type(t) => {
                            let (pp, ty) = (&t.pat, &t.ty);
                            lets.extend(quote!(let #pp : #ty = #a;));
                        }
                        _ => lets.extend(quote!(let #p = #a;)),
                    }
                }
                parse2(quote!({ #lets #body })).ok()
            }
            Expr::Path(_) => parse2(quote!(#f(#(#args),*))).ok(),
            _ => None,
        }
    }
    fn has_ret(f: &Expr) -> bool {
        // a `return`/`?` inside a closure would change meaning when the closure is dissolved
        struct F(bool);
        impl<'ast> syn::visit::Visit<'ast> for F {
            fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                self.0 = true;
            }
        }
        if let Expr::Closure(c) = f {
            let mut x = F(false);
            syn::visit::Visit::visit_expr(&mut x, &c.body);
            x.0
        } else {
            false
        }
    }
    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let recv = &m.receiver;
        let sp = m.span();
        self.n += 1;
        let v = format_ident!("__v{}", self.n, span = sp);
        let e = format_ident!("__e{}", self.n, span = sp);
        let k = self.kind(recv);
        let a0 = m.args.first();
        if let Some(a) = a0 {
            if Self::has_ret(a) {
                return None;
            }
        }
        let q: TokenStream = match (name.as_str(), m.args.len()) {
            ("map_err", 1) => {
                let f = self.apply(a0?, &[e.clone()])?;
                quote!(match #recv { Ok(#v) => Ok(#v), Err(#e) => Err(#f), })
            }
            ("ok_or", 1) => {
                let f = a0?;
                quote!(match #recv { Some(#v) => Ok(#v), None => Err(#f), })
            }
            ("ok_or_else", 1) => {
                let f = self.apply(a0?, &[])?;
                quote!(match #recv { Some(#v) => Ok(#v), None => Err(#f), })
            }
            ("map", 1) => match k? {
                Kind::Opt => {
                    let f = self.apply(a0?, &[v.clone()])?;
                    quote!(match #recv { Some(#v) => Some(#f), None => None, })
                }
                Kind::Res => {
                    let f = self.apply(a0?, &[v.clone()])?;
                    quote!(match #recv { Ok(#v) => Ok(#f), Err(#e) => Err(#e), })
                }
            },
            ("and_then", 1) => match k? {
                Kind::Opt => {
                    let f = self.apply(a0?, &[v.clone()])?;
                    quote!(match #recv { Some(#v) => #f, None => None, })
                }
                Kind::Res => {
                    let f = self.apply(a0?, &[v.clone()])?;
                    quote!(match #recv { Ok(#v) => #f, Err(#e) => Err(#e), })
                }
            },
            ("map_or", 2) => {
                let f = self.apply(&m.args[1], &[v.clone()])?;
                let d = &m.args[0];
                match k? {
                    Kind::Opt => quote!(match #recv { Some(#v) => #f, None => #d, }),
                    Kind::Res => quote!(match #recv { Ok(#v) => #f, Err(_) => #d, }),
                }
            }
            ("map_or_else", 2) => {
                let f = self.apply(&m.args[1], &[v.clone()])?;
                match k? {
                    Kind::Opt => {
                        let d = self.apply(&m.args[0], &[])?;
                        quote!(match #recv { Some(#v) => #f, None => #d, })
                    }
                    Kind::Res => {
                        let d = self.apply(&m.args[0], &[e.clone()])?;
                        quote!(match #recv { Ok(#v) => #f, Err(#e) => #d, })
                    }
                }
            }
            ("is_some_and", 1) => {
                let f = self.apply(a0?, &[v.clone()])?;
                quote!(match #recv { Some(#v) => #f, None => false, })
            }
            ("is_none_or", 1) => {
                let f = self.apply(a0?, &[v.clone()])?;
                quote!(match #recv { Some(#v) => #f, None => true, })
            }
            ("is_ok_and", 1) => {
                let f = self.apply(a0?, &[v.clone()])?;
                quote!(match #recv { Ok(#v) => #f, Err(_) => false, })
            }
            ("is_err_and", 1) => {
                let f = self.apply(a0?, &[e.clone()])?;
                quote!(match #recv { Ok(_) => false, Err(#e) => #f, })
            }
            ("filter", 1) if k == Some(Kind::Opt) => {
                let r = format_ident!("__r{}", self.n, span = sp);
                let f = self.apply(a0?, &[r.clone()])?;
                quote!(match #recv { Some(#v) => { let #r = &#v; if #f { Some(#v) } else { None } } None => None, })
            }
            ("or", 1) => match k? {
                Kind::Opt => { let f = a0?; { let t = format_ident!("__t{}", self.n, span = sp); quote!({ let #t = #recv; let #e = #f; match #t { Some(#v) => Some(#v), None => #e, } }) } }
                Kind::Res => { let f = a0?; { let t = format_ident!("__t{}", self.n, span = sp); quote!({ let #t = #recv; let #e = #f; match #t { Ok(#v) => Ok(#v), Err(_) => #e, } }) } }
            },
            ("and", 1) => match k? {
                Kind::Opt => { let f = a0?; quote!({ let #v = #recv; let #e = #f; match #v { Some(_) => #e, None => None, } }) }
                Kind::Res => return None,
            },
            ("unwrap_or_else", 1) => {
                let a = a0?;
                let arity = match a {
                    Expr::Closure(c) => c.inputs.len(),
                    Expr::Path(p) => *self
                        .env
                        .fn_arity
                        .get(&p.path.segments.last()?.ident.to_string())?,
                    _ => return None,
                };
                if arity == 0 {
                    let f = self.apply(a, &[])?;
                    quote!(match #recv { Some(#v) => #v, None => #f, })
                } else {
                    let f = self.apply(a, &[e.clone()])?;
                    quote!(match #recv { Ok(#v) => #v, Err(#e) => #f, })
                }
            }
            ("or_else", 1) => match k? {
                Kind::Opt => {
                    let f = self.apply(a0?, &[])?;
                    quote!(match #recv { Some(#v) => Some(#v), None => #f, })
                }
                Kind::Res => {
                    let f = self.apply(a0?, &[e.clone()])?;
                    quote!(match #recv { Ok(#v) => Ok(#v), Err(#e) => #f, })
                }
            },
            ("transpose", 0) => match k? {
                Kind::Opt => quote!(match #recv { Some(Ok(#v)) => Ok(Some(#v)), Some(Err(#e)) => Err(#e), None => Ok(None), }),
                Kind::Res => quote!(match #recv { Ok(Some(#v)) => Some(Ok(#v)), Ok(None) => None, Err(#e) => Some(Err(#e)), }),
            },
            ("any", 1) | ("all", 1) => {
                let (neg, base) = (name == "all", iter_base(recv)?);
                let y = eq_closure(a0?, neg)?;
                if neg { quote!(!#base.xfull().contains(#y)) } else { quote!(#base.xfull().contains(#y)) }
            }
            ("extend", 1) => {
                let a = a0?;
                quote!(crate::xstd::x_extend(&mut #recv, #a))
            }
            ("max", 1) => { let a = a0?; quote!(crate::xstd::x_max(#recv, #a)) }
            ("min", 1) => { let a = a0?; quote!(crate::xstd::x_min(#recv, #a)) }
            ("as_deref", 0) => {
                quote!(match &#recv { Some(#v) => Some(crate::xstd::XFull::xfull(#v)), None => None, })
            }
            ("ok", 0) => quote!(match #recv { Ok(#v) => Some(#v), Err(_) => None, }),
            _ => return None,
        };
        parse2(q).ok()
    }
    fn call(&mut self, c: &ExprCall) -> Option<Expr> {
        let p = match &*c.func {
            Expr::Path(p) => p,
            _ => return None,
        };
        let name = p.path.segments.last()?.ident.to_string();
        // room that is asked for has to be there
        if matches!(name.as_str(), "with_capacity" | "from_elem") && p.path.segments.len() >= 2 {
            let v = &p.path.segments[p.path.segments.len() - 2];
            if v.ident == "Vec" && c.args.len() == 1 {
                let (a, n) = (&v.arguments, &c.args[0]);
                return match a {
                    PathArguments::AngleBracketed(a) => parse2(quote!(crate::xstd::vec_cap :: #a (#n))).ok(),
                    _ => parse2(quote!(crate::xstd::vec_cap(#n))).ok(),
                };
            }
        }
        if name == "agree_ephemeral" && c.args.len() == 4 {
            let (a, b, er) = (&c.args[0], &c.args[1], &c.args[2]);
            let km = format_ident!("__km{}", self.n);
            let ks = format_ident!("__ks{}", self.n);
            self.n += 1;
            let f = self.apply(&c.args[3], &[ks.clone()])?;
            return parse2(quote!(match crate::ring::agreement::agree(#a, #b) {
                Some(#km) => { let #ks = crate::xstd::XFull::xfull(&#km); #f },
                None => Err(#er),
            }))
            .ok();
        }
        None
    }
    fn mac(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "panic" | "unreachable" | "unimplemented" | "todo" => {
                Some(parse_quote!(crate::xstd::unreached()))
            }
            "assert" | "debug_assert" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let c = args.first()?;
                Some(parse_quote!(if !(#c) { crate::xstd::unreached() }))
            }
            "assert_eq" | "debug_assert_eq" => {
                let args: punctuated::Punctuated<Expr, Token![,]> =
                    m.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
                let (a, b) = (args.get(0)?, args.get(1)?);
                Some(parse_quote!(if !(#a == #b) { crate::xstd::unreached() }))
            }
            "format" => Some(parse_quote!(crate::xstd::any_string())),
            "println" | "eprintln" | "print" | "eprint" | "debug" | "trace" | "info" | "warn" | "error" => {
                Some(parse_quote!({}))
            }
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<M> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) {
                            i.parse::<Token![if]>()?;
                            Some(i.parse()?)
                        } else {
                            None
                        };
                        let _ = i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body().ok()?;
                Some(match g {
                    Some(g) => parse_quote!(match #e { #p if #g => true, _ => false, }),
                    None => parse_quote!(match #e { #p => true, _ => false, }),
                })
            }
            "vec" => {
                if m.tokens.is_empty() {
                    return Some(parse_quote!(Vec::new()));
                }
                struct R(Expr, Expr);
                impl parse::Parse for R {
                    fn parse(i: parse::ParseStream) -> Result<R> {
                        let e = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(R(e, i.parse()?))
                    }
                }
                let R(e, n) = m.parse_body().ok()?;
                Some(parse_quote!(crate::xstd::vec_rep(#e, #n)))
            }
            _ => None,
        }
    }
}

impl<'a> VisitMut for Combinators<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                let semi = m.semi_token;
                *s = Stmt::Expr(e, semi);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.vars.push(Default::default());
        visit_mut::visit_block_mut(self, b);
        self.vars.pop();
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let m = self.binders(&a.pat);
        self.vars.push(m);
        visit_mut::visit_arm_mut(self, a);
        self.vars.pop();
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        let m = match &*i.cond {
            Expr::Let(l) => self.binders(&l.pat),
            _ => Default::default(),
        };
        self.vars.push(m);
        visit_mut::visit_expr_if_mut(self, i);
        self.vars.pop();
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let (id, k) = match &l.pat {
            Pat::Ident(i) => (i.ident.to_string(), l.init.as_ref().and_then(|x| self.kind(&x.expr))),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(i) => (i.ident.to_string(), kind_of_type(&t.ty)),
                _ => return,
            },
            _ => return,
        };
        if let (Some(k), Some(m)) = (k, self.vars.last_mut()) {
            m.insert(id, k);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(x) = self.mac(&m.mac) {
                *e = x;
            }
        }
        if let Expr::MethodCall(m) = e {
            let x = match (m.method.to_string().as_str(), m.args.len()) {
                ("reserve" | "reserve_exact", 1) => "xreserve",
                ("resize", 2) => "xresize",
                _ => "",
            };
            if !x.is_empty() {
                m.method = Ident::new(x, m.method.span());
            }
        }
        let r = match e {
            Expr::MethodCall(m) => self.method(m),
            Expr::Call(c) => self.call(c),
            _ => None,
        };
        if let Some(x) = r {
            *e = x;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        visit_mut::visit_expr_closure_mut(self, c);
    }
}

/// stage 3: paths, byte-string matches, iteration, slices
pub struct Lower<'a> {
    pub env: &'a Env,
    pub slice_vars: BTreeSet<String>,
    pub loops: usize,
    /// the loops as written
    pub loop_src: Vec<String>,
    pub n: usize,
    /// loop ordinal -> tokens of `invariant .. decreases ..`
    pub loop_clauses: BTreeMap<usize, TokenStream>,
    pub loops_without_decreases: bool,
    pub loop_has_decreases: BTreeSet<usize>,
}

/// a pattern over a byte string as (condition or None if it always matches, bindings); `m` is the
/// matched `&[u8]`
fn byte_cond(p: &Pat, env: &Env, m: &Ident) -> Option<(Option<Expr>, TokenStream)> {
    let eq = |x: Expr| -> Option<(Option<Expr>, TokenStream)> {
        Some((Some(parse_quote!(crate::xstd::bytes_eq(#m, (#x).xfull()))), TokenStream::new()))
    };
    match p {
        Pat::Path(pp) => {
            let n = pp.path.segments.last()?.ident.to_string();
            let p = &pp.path;
            if env.byte_consts.contains(&n) { eq(parse_quote!(#p)) } else { None }
        }
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
            let id = &i.ident;
            if env.byte_consts.contains(&id.to_string()) {
                eq(parse_quote!(#id))
            } else if i.mutability.is_none() && id.to_string().chars().next()?.is_lowercase() {
                Some((None, quote!(let #id = #m;)))
            } else {
                None
            }
        }
        Pat::Or(o) => {
            let mut c: Option<Expr> = None;
            for x in &o.cases {
                let (d, l) = byte_cond(x, env, m)?;
                if !l.is_empty() {
                    return None;
                }
                match (d, c) {
                    (None, _) => return Some((None, TokenStream::new())),
                    (Some(d), None) => c = Some(d),
                    (Some(d), Some(o)) => c = Some(parse_quote!(#o || #d)),
                }
            }
            Some((c, TokenStream::new()))
        }
        Pat::Paren(p) => byte_cond(&p.pat, env, m),
        Pat::Reference(r) => byte_cond(&r.pat, env, m),
        Pat::Lit(l) => match &l.lit {
            Lit::ByteStr(b) => eq(lit_bytes(b)),
            _ => None,
        },
        Pat::Wild(_) => Some((None, TokenStream::new())),
        Pat::Slice(s) => {
            if !s.elems.is_empty() && s.elems.iter().all(|e| matches!(e, Pat::Lit(ExprLit { lit: Lit::Int(_) | Lit::Byte(_), .. }))) {
                let v = s.elems.iter().collect::<Vec<_>>();
                return eq(parse_quote!(&[#(#v as u8),*]));
            }
            let is_rest = |e: &Pat| match e {
                Pat::Rest(_) => true,
                Pat::Ident(i) => i.subpat.as_ref().map_or(false, |(_, p)| matches!(**p, Pat::Rest(_))),
                _ => false,
            };
            let n = s.elems.len();
            let rest = s.elems.iter().position(is_rest);
            let fixed = if rest.is_some() { n - 1 } else { n };
            let mut cond: Option<Expr> = match rest {
                Some(_) if fixed == 0 => None,
                Some(_) => Some(parse_quote!(#m.len() >= #fixed)),
                None => Some(parse_quote!(#m.len() == #fixed)),
            };
            let mut lets = TokenStream::new();
            for (i, e) in s.elems.iter().enumerate() {
                let back = n - i;
                let idx: Expr = match rest {
                    Some(r) if i > r => parse_quote!(#m.len() - #back),
                    _ => parse_quote!(#i),
                };
                if Some(i) == rest {
                    if let Pat::Ident(b) = e {
                        let id = &b.ident;
                        let tail = n - 1 - i;
                        lets.extend(quote!(let #id = &#m[#i..(#m.len() - #tail)];));
                    }
                    continue;
                }
                match e {
                    Pat::Wild(_) => {}
                    Pat::Ident(b) if b.subpat.is_none() && b.by_ref.is_none() && b.mutability.is_none()
                        && b.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase()) =>
                    {
                        let id = &b.ident;
                        lets.extend(quote!(let #id = &#m[#idx];));
                    }
                    _ => {
                        let c = elem_cond(e, &parse_quote!(#m[#idx]))?;
                        cond = Some(match cond {
                            None => c,
                            Some(o) => parse_quote!(#o && #c),
                        });
                    }
                }
            }
            let cond = cond.map(|c| -> Expr { parse_quote!((#c)) });
            Some((cond, lets))
        }
        _ => None,
    }
}

/// a pattern for one byte
fn elem_cond(p: &Pat, x: &Expr) -> Option<Expr> {
    Some(match p {
        Pat::Lit(ExprLit { lit: l @ (Lit::Int(_) | Lit::Byte(_)), .. }) => parse_quote!(#x == #l),
        Pat::Range(r) => {
            let mut c: Option<Expr> = None;
            if let Some(a) = &r.start {
                c = Some(parse_quote!(#x >= #a));
            }
            if let Some(b) = &r.end {
                let d: Expr = match r.limits {
                    RangeLimits::HalfOpen(_) => parse_quote!(#x < #b),
                    RangeLimits::Closed(_) => parse_quote!(#x <= #b),
                };
                c = Some(match c {
                    None => d,
                    Some(c) => parse_quote!((#c && #d)),
                });
            }
            c?
        }
        Pat::Or(o) => {
            let mut c: Option<Expr> = None;
            for y in &o.cases {
                let d = elem_cond(y, x)?;
                c = Some(match c {
                    None => d,
                    Some(c) => parse_quote!(#c || #d),
                });
            }
            let c = c?;
            parse_quote!((#c))
        }
        Pat::Paren(p) => elem_cond(&p.pat, x)?,
        Pat::Reference(r) => elem_cond(&r.pat, x)?,
        _ => return None,
    })
}

/// is this certainly a pattern over a byte string?
fn byte_like(p: &Pat, env: &Env) -> bool {
    match p {
        Pat::Path(pp) => pp.path.segments.last().map_or(false, |s| env.byte_consts.contains(&s.ident.to_string())),
        Pat::Ident(i) => i.subpat.is_none() && env.byte_consts.contains(&i.ident.to_string()),
        Pat::Or(o) => o.cases.iter().any(|c| byte_like(c, env)),
        Pat::Paren(p) => byte_like(&p.pat, env),
        Pat::Reference(r) => byte_like(&r.pat, env),
        Pat::Slice(_) => true,
        Pat::Lit(l) => matches!(l.lit, Lit::ByteStr(_)),
        _ => false,
    }
}

impl<'a> Lower<'a> {
    fn byte_match(&mut self, m: &ExprMatch) -> Option<Expr> {
        if !m.arms.iter().any(|a| byte_like(&a.pat, self.env)) {
            return None;
        }
        let mm = format_ident!("__m{}", self.n);
        self.n += 1;
        let mut out: Expr = parse_quote!({ crate::xstd::unreached() });
        for a in m.arms.iter().rev() {
            let body = &a.body;
            let (cond, lets) = byte_cond(&a.pat, self.env, &mm)?;
            let guard = a.guard.as_ref().map(|(_, g)| g);
            out = if lets.is_empty() {
                let cond: Option<Expr> = match (cond, guard) {
                    (None, None) => None,
                    (None, Some(g)) => Some(parse_quote!(#g)),
                    (Some(c), None) => Some(c),
                    (Some(c), Some(g)) => Some(parse_quote!((#c) && (#g))),
                };
                match cond {
                    None => parse_quote!({ #body }),
                    Some(c) => parse_quote!(if #c { #body } else #out),
                }
            } else {
                // the names bound here must not shadow what the later arms use
                if guard.is_some() {
                    return None;
                }
                match cond {
                    None => parse_quote!({ #lets #body }),
                    Some(c) => parse_quote!(if #c { #lets #body } else #out),
                }
            };
        }
        let s = &m.expr;
        Some(parse_quote!({ let #mm: &[u8] = (#s).xfull(); #out }))
    }
    /// `if let <byte pattern> = e` as a match
    fn byte_if(&mut self, i: &ExprIf) -> Option<Expr> {
        let l = match &*i.cond {
            Expr::Let(l) => l,
            _ => return None,
        };
        if !byte_like(&l.pat, self.env) {
            return None;
        }
        let (p, x, t) = (&l.pat, &l.expr, &i.then_branch);
        let e: Expr = match &i.else_branch {
            Some((_, e)) => (**e).clone(),
            None => parse_quote!({}),
        };
        let m: ExprMatch = parse_quote!(match #x { #p => #t, _ => #e });
        self.byte_match(&m)
    }
    fn is_bytes(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().map_or(false, |i| {
                self.slice_vars.contains(&i.to_string()) || self.env.byte_consts.contains(&i.to_string())
            }),
            Expr::Paren(p) => self.is_bytes(&p.expr),
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                n == "as_slice" || n == "xfull" || (n == "as_ref" && m.args.is_empty())
            }
            Expr::Reference(r) => matches!(&*r.expr, Expr::Index(i) if matches!(&*i.index, Expr::Range(_))),
            _ => false,
        }
    }
    /// the invariants the contract gives this loop, in the names the code uses: `__itK.all()` and `__itK.pos()` are
    /// what is iterated over and how far it is, `__accK` the vector the body pushes to, `__cntK` what it counts up
    fn clauses(&mut self, k: usize, body: &Block, all: Option<(TokenStream, TokenStream)>, skip: Option<&str>) -> TokenStream {
        if !self.loop_has_decreases.contains(&k) {
            self.loops_without_decreases = true;
        }
        let c = self.loop_clauses.get(&k).cloned().unwrap_or_default();
        let mut u = BodyUse { acc: None, cnt: None, skip: skip.map(|s| s.to_string()) };
        syn::visit::Visit::visit_block(&mut u, body);
        subst(c, k, &all, &u)
    }
    /// `v.iter()`, `v.into_iter()`, `v.drain(..)`, `&v` with adapters, as the verifier's iterator
    fn iterator(&self, src: &Expr, always: bool) -> Option<TokenStream> {
        let mut src = src.clone();
        let mut adapt = vec![];
        while let Expr::MethodCall(m) = &src {
            let x = match (m.method.to_string().as_str(), m.args.len()) {
                ("rev", 0) => "x_rev",
                ("enumerate", 0) => "x_enumerate",
                ("skip", 1) => "x_skip",
                ("take", 1) => "x_take",
                ("copied", 0) | ("cloned", 0) => "x_copied",
                _ => break,
            };
            adapt.push((Ident::new(x, m.method.span()), m.args.first().cloned()));
            src = (*m.receiver).clone();
        }
        adapt.reverse();
        let adapt: TokenStream = adapt.iter().map(|(n, a)| quote!(.#n(#a))).collect();
        let init: TokenStream = match &src {
            Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                let r = &m.receiver;
                quote!(crate::xstd::x_iter(#r.xfull()))
            }
            Expr::Reference(r) if r.mutability.is_none() && always => {
                let r = &r.expr;
                quote!(crate::xstd::x_iter(#r.xfull()))
            }
            Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                let r = &m.receiver;
                quote!(#r.x_into_iter())
            }
            Expr::MethodCall(m) if m.method == "drain" && m.args.len() == 1
                && matches!(&m.args[0], Expr::Range(r) if r.start.is_none() && r.end.is_none()) =>
            {
                let r = &m.receiver;
                quote!(crate::xstd::drain_collect_all(&mut #r).x_into_iter())
            }
            _ if always => quote!((#src).x_into_iter()),
            _ => return None,
        };
        Some(quote!(#init #adapt))
    }
}

/// what the body of a loop pushes to and counts up
struct BodyUse {
    acc: Option<TokenStream>,
    cnt: Option<TokenStream>,
    skip: Option<String>,
}

impl<'ast> syn::visit::Visit<'ast> for BodyUse {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        if self.acc.is_none() && matches!(m.method.to_string().as_str(), "push" | "extend") {
            if let Expr::Path(p) = &*m.receiver {
                self.acc = Some(quote!(#p));
            }
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let (Expr::Path(p), Some(Expr::Reference(r))) = (&*c.func, c.args.first()) {
            if self.acc.is_none() && p.path.segments.last().map_or(false, |s| s.ident == "x_extend") && r.mutability.is_some() {
                let v = &r.expr;
                self.acc = Some(quote!(#v));
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_binary(&mut self, b: &'ast ExprBinary) {
        if let BinOp::AddAssign(_) = b.op {
            let l = &b.left;
            let simple = matches!(&**l, Expr::Path(_) | Expr::Field(_));
            if self.cnt.is_none() && simple && self.skip.as_deref() != Some(&quote!(#l).to_string()) {
                self.cnt = Some(quote!(#l));
            }
        }
        syn::visit::visit_expr_binary(self, b);
    }
    fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
        if let Expr::Binary(b) = &*a.right {
            let (l, r) = (&a.left, &b.left);
            if matches!(b.op, BinOp::Add(_)) && quote!(#l).to_string() == quote!(#r).to_string() && self.cnt.is_none()
                && self.skip.as_deref() != Some(&quote!(#l).to_string())
            {
                self.cnt = Some(quote!(#l));
            }
        }
        syn::visit::visit_expr_assign(self, a);
    }
}

fn subst(ts: TokenStream, k: usize, all: &Option<(TokenStream, TokenStream)>, u: &BodyUse) -> TokenStream {
    let (it, acc, cnt) = (format!("__it{k}"), format!("__acc{k}"), format!("__cnt{k}"));
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), subst(g.stream(), k, all, u));
                n.set_span(g.span());
                out.extend([TokenTree::Group(n)]);
            }
            TokenTree::Ident(x) if *x == it && all.is_some() && i + 3 < v.len() => {
                let (a, p) = all.as_ref().unwrap();
                match v[i + 2].to_string().as_str() {
                    "all" => out.extend(a.clone()),
                    "pos" => out.extend(p.clone()),
                    _ => out.extend([v[i].clone(), v[i + 1].clone(), v[i + 2].clone(), v[i + 3].clone()]),
                }
                i += 3;
            }
            TokenTree::Ident(x) if *x == acc && u.acc.is_some() => out.extend(u.acc.clone().unwrap()),
            TokenTree::Ident(x) if *x == cnt && u.cnt.is_some() => out.extend(u.cnt.clone().unwrap()),
            t => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

/// `0..v.len()`
fn range_over(e: &Expr) -> Option<Ident> {
    let r = match e {
        Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => r,
        _ => return None,
    };
    match (r.start.as_deref(), r.end.as_deref()) {
        (Some(Expr::Lit(ExprLit { lit: Lit::Int(i), .. })), Some(e)) if i.base10_digits() == "0" => len_of(e),
        _ => None,
    }
}

fn len_of(e: &Expr) -> Option<Ident> {
    match e {
        Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() => match &*m.receiver {
            Expr::Path(p) => p.path.get_ident().cloned(),
            _ => None,
        },
        _ => None,
    }
}

/// `i < v.len()`
fn index_over(e: &Expr) -> Option<(Ident, Ident)> {
    let id = |e: &Expr| match e {
        Expr::Path(p) => p.path.get_ident().cloned(),
        _ => None,
    };
    match e {
        Expr::Binary(b) => match b.op {
            BinOp::Lt(_) | BinOp::Ne(_) => Some((id(&b.left)?, len_of(&b.right)?)),
            BinOp::Gt(_) => Some((id(&b.right)?, len_of(&b.left)?)),
            _ => None,
        },
        _ => None,
    }
}

/// does the body leave the vector as it is?
fn unchanged(v: &Ident, body: &Block) -> bool {
    let t = quote!(#body).to_string();
    let w = format!(" {t} ");
    !["push", "pop", "remove", "clear", "insert", "truncate", "drain", "extend", "append", "swap_remove", "retain"]
        .iter()
        .any(|m| w.contains(&format!(" {v} . {m} ")))
        && !w.contains(&format!("& mut {v} "))
        && !w.contains(&format!(" {v} = "))

}

/// the iterator that `.next()` is called on
fn nexts(t: TokenStream) -> Option<Ident> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Group(g) = &v[i] {
            if let Some(x) = nexts(g.stream()) {
                return Some(x);
            }
        }
        if let (TokenTree::Ident(x), Some(TokenTree::Punct(p)), Some(TokenTree::Ident(n)), Some(TokenTree::Group(g))) =
            (&v[i], v.get(i + 1), v.get(i + 2), v.get(i + 3))
        {
            if p.as_char() == '.' && n == "next" && g.stream().is_empty() && (i == 0 || v[i - 1].to_string() != ".") {
                return Some(x.clone());
            }
        }
    }
    None
}

fn is_break(b: &Block, label: &Option<Label>) -> bool {
    match &b.stmts[..] {
        [Stmt::Expr(Expr::Break(x), _)] => {
            x.expr.is_none() && (x.label.is_none() || x.label.as_ref() == label.as_ref().map(|l| &l.name))
        }
        _ => false,
    }
}

struct Jumps(bool);
impl<'ast> syn::visit::Visit<'ast> for Jumps {
    fn visit_expr_break(&mut self, _: &'ast ExprBreak) {
        self.0 = true;
    }
    fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
        self.0 = true;
    }
    fn visit_local(&mut self, _: &'ast Local) {
        self.0 = true;
    }
    fn visit_expr_while(&mut self, _: &'ast ExprWhile) {
        self.0 = true;
    }
    fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {
        self.0 = true;
    }
    fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {
        self.0 = true;
    }
}

/// `loop { if c { break; } B }` is `while !c { B }`; `loop { if c { B } else { break; } }` is `while c { B }`;
/// `loop { A; if c { break; } }` is `A; while !c { A }` (A declares nothing and does not leave the loop)
fn loop_as_while(l: &ExprLoop) -> Option<Expr> {
    let label = &l.label;
    let ss = &l.body.stmts;
    let cond = |i: &ExprIf| !matches!(&*i.cond, Expr::Let(_));
    if let Some(Stmt::Expr(Expr::If(i), _)) = ss.first() {
        let c = &i.cond;
        if cond(i) && i.else_branch.is_none() && is_break(&i.then_branch, label) {
            let rest = &ss[1..];
            return Some(parse_quote!(#label while !(#c) { #(#rest)* }));
        }
        if let (1, Some((_, x))) = (ss.len(), &i.else_branch) {
            if let Expr::Block(x) = &**x {
                if is_break(&x.block, label) {
                    let b = &i.then_branch;
                    return Some(parse_quote!(#label while #c #b));
                }
            }
        }
    }
    if let Some(Stmt::Expr(Expr::If(i), _)) = ss.last() {
        let c = &i.cond;
        if cond(i) && i.else_branch.is_none() && is_break(&i.then_branch, label) {
            let a = &ss[..ss.len() - 1];
            let mut j = Jumps(false);
            for s in a {
                syn::visit::Visit::visit_stmt(&mut j, s);
            }
            if !j.0 {
                return Some(parse_quote!({ #(#a)* #label while !(#c) { #(#a)* } }));
            }
        }
    }
    None
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for i in 0..b.stmts.len() {
            let rest = &b.stmts[i + 1..];
            let name = match &b.stmts[i] {
                Stmt::Local(Local { pat: Pat::Ident(p), .. }) if p.mutability.is_some() => p.ident.clone(),
                _ => continue,
            };
            if nexts(quote!(#(#rest)*)).map_or(true, |x| x != name) {
                continue;
            }
            if let Stmt::Local(Local { init: Some(x), .. }) = &mut b.stmts[i] {
                if let Some(t) = self.iterator(&x.expr, false) {
                    x.expr = Box::new(syn::parse2(t).expect("iterator"));
                }
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `for` over something other than a range; `while let`
        match e {
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                self.loop_src.push(quote!(#f).to_string());
                let it = format_ident!("__it{}", k);
                let (pat, mut src, mut body) = (f.pat.clone(), (*f.expr).clone(), f.body.clone());
                // `for i in 0..v.len()` walks over v
                let over = range_over(&src).filter(|v| unchanged(v, &body));
                let c = match &over {
                    Some(v) => {
                        let i = format_ident!("__i{}", k);
                        self.clauses(k, &body, Some((quote!(#v@), quote!((#i as int)))), None)
                    }
                    None => self.clauses(k, &body, None, None),
                };
                self.visit_pat_mut(&mut f.pat);
                self.visit_expr_mut(&mut src);
                self.visit_block_mut(&mut body);
                if let Some(v) = &over {
                    let (label, i) = (&f.label, format_ident!("__i{}", k));
                    *e = Expr::Verbatim(quote!({
                        let mut #i: usize = 0;
                        #label while #i < #v.len() #c { let #pat: usize = #i; #i += 1; #body }
                    }));
                    return;
                }
                if let Expr::Range(_) = &src {
                    let label = &f.label;
                    *e = Expr::Verbatim(quote!(#label for #pat in #src #c #body));
                    return;
                }
                let init = self.iterator(&src, true).unwrap();
                let label = &f.label;
                *e = Expr::Verbatim(quote!({
                    let mut #it = #init;
                    #label loop #c { match #it.next() { Some(#pat) => #body, None => { break; } } }
                }));
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                self.loop_src.push(quote!(#w).to_string());
                let (idx, over) = match index_over(&w.cond) {
                    Some((i, v)) if unchanged(&v, &w.body) => (Some(i.to_string()), Some((quote!(#v@), quote!((#i as int))))),
                    _ => (None, None),
                };
                let over = over.or_else(|| {
                    nexts(quote!(#w)).map(|x| (quote!(#x.all()), quote!(#x.pos())))
                });
                let c = self.clauses(k, &w.body, over, idx.as_deref());
                let label = w.label.clone();
                if let Expr::Let(l) = &mut *w.cond {
                    self.visit_expr_mut(&mut l.expr);
                    self.visit_pat_mut(&mut l.pat);
                    self.visit_block_mut(&mut w.body);
                    let (p, s, b) = (&l.pat, &l.expr, &w.body);
                    *e = Expr::Verbatim(quote!(#label loop #c { match #s { #p => #b, _ => { break; } } }));
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    let (s, b) = (&w.cond, &w.body);
                    *e = Expr::Verbatim(quote!(#label while #s #c #b));
                }
                return;
            }
            Expr::Loop(l) => {
                if let Some(mut x) = loop_as_while(l) {
                    self.visit_expr_mut(&mut x);
                    *e = x;
                    return;
                }
                let k = self.loops;
                self.loops += 1;
                self.loop_src.push(quote!(#l).to_string());
                let over = nexts(quote!(#l)).map(|x| (quote!(#x.all()), quote!(#x.pos())));
                let c = self.clauses(k, &l.body, over, None);
                self.visit_block_mut(&mut l.body);
                let (label, b) = (&l.label, &l.body);
                *e = Expr::Verbatim(quote!(#label loop #c #b));
                return;
            }
            _ => {}
        }
        if let Expr::Match(m) = e {
            if let Some(x) = self.byte_match(m) {
                *e = x;
            }
        }
        if let Expr::If(i) = e {
            if let Some(x) = self.byte_if(i) {
                *e = x;
            }
        }
        if let Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }) = e {
            *e = lit_bytes(b);
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "to_be_bytes" && m.args.is_empty() {
                    m.method = Ident::new("x_to_be_bytes", m.method.span());
                } else if n == "collect" && m.args.is_empty() {
                    if let Expr::MethodCall(d) = &*m.receiver {
                        if d.method == "drain" && d.args.len() == 1 {
                            if let Expr::Range(r) = &d.args[0] {
                                let v = &d.receiver;
                                let a: Expr = match &r.start {
                                    Some(x) => (**x).clone(),
                                    None => parse_quote!(0),
                                };
                                let b: Expr = match (&r.end, &r.limits) {
                                    (Some(x), RangeLimits::HalfOpen(_)) => (**x).clone(),
                                    (Some(x), _) => parse_quote!((#x) + 1),
                                    (None, _) => parse_quote!(#v.len()),
                                };
                                let t = format_ident!("__d{}", self.n);
                                self.n += 1;
                                let t2 = format_ident!("__d{}", self.n);
                                self.n += 1;
                                *e = parse_quote!({ let #t = #a; let #t2 = #b; crate::xstd::drain_collect(&mut #v, #t, #t2) });
                            }
                        }
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Index(i) = &*r.expr {
                    if let Expr::Range(rg) = &*i.index {
                        if rg.start.is_none() && rg.end.is_none() {
                            let b = &i.expr;
                            *e = parse_quote!(#b.xfull());
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s = p.to_token_stream().to_string().replace(' ', "");
                    if s == "u64::from_be_bytes" {
                        c.func = parse_quote!(crate::xstd::u64_from_be_bytes);
                    } else if matches!(s.as_str(), "std::cmp::max" | "core::cmp::max" | "cmp::max" | "max") && c.args.len() == 2 {
                        c.func = parse_quote!(crate::xstd::x_max);
                    } else if matches!(s.as_str(), "std::cmp::min" | "core::cmp::min" | "cmp::min" | "min") && c.args.len() == 2 {
                        c.func = parse_quote!(crate::xstd::x_min);
                    } else if matches!(s.as_str(), "std::mem::replace" | "core::mem::replace" | "mem::replace") && c.args.len() == 2 {
                        c.func = parse_quote!(crate::xstd::x_replace);
                    } else if matches!(s.as_str(), "std::mem::take" | "core::mem::take" | "mem::take") && c.args.len() == 1 {
                        c.func = parse_quote!(crate::xstd::x_take);
                    } else if s == "<[u8;8]>::default" {
                        *e = parse_quote!([0u8; 8]);
                    } else if s == "Default::default" || s == "<_>::default" {
                    } else if let Some(q) = &p.qself {
                        if let Type::Array(a) = &*q.ty {
                            if s.ends_with("::default") {
                                let n = &a.len;
                                *e = parse_quote!([0; #n]);
                            }
                        }
                    }
                }
            }
            Expr::Binary(b) => {
                let f = match b.op {
                    BinOp::Lt(_) => "bytes_lt",
                    BinOp::Gt(_) => "bytes_gt",
                    BinOp::Le(_) => "bytes_le",
                    BinOp::Ge(_) => "bytes_ge",
                    _ => "",
                };
                if !f.is_empty() && (self.is_bytes(&b.left) || self.is_bytes(&b.right)) {
                    let f = Ident::new(f, b.span());
                    let (l, r) = (&b.left, &b.right);
                    *e = parse_quote!(crate::xstd::#f(#l, #r));
                }
            }
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        fix_path(p, &self.env.local_names);
    }
    fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
        visit_mut::visit_type_param_bound_mut(self, b);
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        let local = |n: &str| u.leading_colon.is_none() && self.env.local_names.contains(n);
        if let UseTree::Path(p) = &mut u.tree {
            let first = p.ident.to_string();
            let inner = &p.tree;
            if EXTERN.contains(&first.as_str()) && !local(&first) {
                let id = &p.ident;
                u.tree = parse_quote!(crate::#id::#inner);
                u.leading_colon = None;
            } else if let ("std" | "core", UseTree::Path(q)) = (first.as_str(), &**inner) {
                if q.ident == "io" || q.ident == "num" {
                    u.tree = parse_quote!(crate::xstd::#inner);
                    u.leading_colon = None;
                }
            }
        }
    }
}

/// extern crates and std::io are replaced by the modules of the trusted prelude
pub fn fix_path(p: &mut Path, local: &BTreeSet<String>) {
    let leading = p.leading_colon.is_some();
    let first = match p.segments.first() {
        Some(s) => s.ident.to_string(),
        None => return,
    };
    let call = Span::call_site();
    if EXTERN.contains(&first.as_str()) && (leading || (p.segments.len() > 1 && !local.contains(&first))) {
        p.leading_colon = None;
        p.segments.insert(0, Ident::new("crate", call).into());
        return;
    }
    if (first == "std" || first == "core") && p.segments.len() > 1 {
        let second = p.segments[1].ident.to_string();
        if second == "io" || second == "num" {
            p.leading_colon = None;
            p.segments[0].ident = Ident::new("xstd", p.segments[0].ident.span());
            p.segments.insert(0, Ident::new("crate", call).into());
        }
    }
}

/// Rewrites one `use` tree into a list of full paths with the prelude substitutions applied.
pub fn use_paths(t: &UseTree, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
    match t {
        UseTree::Path(p) => {
            pre.push(p.ident.to_string());
            use_paths(&p.tree, pre, out);
            pre.pop();
        }
        UseTree::Name(n) => {
            let mut v = pre.clone();
            let id = n.ident.to_string();
            if id == "self" {
                let last = v.last().cloned().unwrap_or_default();
                out.push((v, last));
            } else {
                v.push(id.clone());
                out.push((v, id));
            }
        }
        UseTree::Rename(r) => {
            let mut v = pre.clone();
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.push((v, r.rename.to_string()));
        }
        UseTree::Glob(_) => {
            let mut v = pre.clone();
            v.push("*".into());
            out.push((v, "*".into()));
        }
        UseTree::Group(g) => {
            for x in &g.items {
                use_paths(x, pre, out);
            }
        }
    }
}
