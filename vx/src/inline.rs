//! Mechanical inlining of functions that have no contract of their own.
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct FnRec {
    pub key: String,
    pub module: Vec<String>,
    pub self_ty: Option<String>,
    pub trait_: Option<String>,
    pub sig: Signature,
    pub block: Block,
    pub is_pub: bool,
    /// absolute paths of the names visible in the module (used when inlined elsewhere)
    pub abs: BTreeMap<String, String>,
    /// under contract: calls stay calls
    pub contracted: bool,
}

/// last identifier of a type, through references and Option
pub fn head_ty(t: &Type) -> Option<String> {
    match t {
        Type::Reference(r) => head_ty(&r.elem),
        Type::Path(p) => {
            let s = p.path.segments.last()?;
            if s.ident == "Option" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    if let Some(GenericArgument::Type(t)) = a.args.first() {
                        return head_ty(t);
                    }
                }
            }
            Some(s.ident.to_string())
        }
        _ => None,
    }
}

pub struct Inliner<'a> {
    pub helpers: &'a BTreeMap<String, Vec<FnRec>>, // by name
    pub cur: &'a FnRec,
    pub fields: &'a BTreeMap<String, String>,
    pub done: BTreeSet<String>,
    pub failed: BTreeSet<String>,
    pub depth: usize,
    pub counter: usize,
}

fn err_type(rt: &ReturnType) -> Option<String> {
    if let ReturnType::Type(_, t) = rt {
        if let Type::Path(p) = &**t {
            let s = p.path.segments.last()?;
            if s.ident != "Result" {
                return None;
            }
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if a.args.len() == 2 {
                    return Some(a.args[1].to_token_stream().to_string());
                }
            }
            return Some("Error".into());
        }
    }
    None
}

struct Finder {
    ret: bool,
    q: bool,
}
impl<'ast> Visit<'ast> for Finder {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.q = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn has_ret_s(s: &Stmt, q: bool) -> bool {
    let mut f = Finder { ret: false, q: false };
    f.visit_stmt(s);
    f.ret || (q && f.q)
}
fn has_ret_e(s: &Expr, q: bool) -> bool {
    let mut f = Finder { ret: false, q: false };
    f.visit_expr(s);
    f.ret || (q && f.q)
}
fn has_ret_b(s: &Block, q: bool) -> bool {
    let mut f = Finder { ret: false, q: false };
    f.visit_block(s);
    f.ret || (q && f.q)
}

fn tail_expr(e: Expr) -> Stmt {
    Stmt::Expr(e, None)
}
fn blk(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn to_block(e: &Expr) -> Block {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.clone(),
        _ => blk(vec![tail_expr(e.clone())]),
    }
}
fn block_expr(b: Block) -> Expr {
    Expr::Block(ExprBlock { attrs: vec![], label: None, block: b })
}

/// never falls through
fn diverges(b: &Block) -> bool {
    match b.stmts.last() {
        Some(Stmt::Expr(e, _)) => diverges_e(e),
        _ => false,
    }
}
fn diverges_e(e: &Expr) -> bool {
    match e {
        Expr::Return(_) | Expr::Break(_) | Expr::Continue(_) => true,
        Expr::Block(b) => diverges(&b.block),
        Expr::If(i) => {
            diverges(&i.then_branch) && i.else_branch.as_ref().map_or(false, |(_, e)| diverges_e(e))
        }
        Expr::Match(m) => !m.arms.is_empty() && m.arms.iter().all(|a| diverges_e(&a.body)),
        _ => false,
    }
}

/// Rewrites a block so that it contains no `return` (and no `?` when `q`): early exits become nesting.
pub fn deret(b: &Block, q: bool) -> Option<Block> {
    if !has_ret_b(b, q) {
        return Some(b.clone());
    }
    let i = b.stmts.iter().position(|s| has_ret_s(s, q))?;
    let mut out: Vec<Stmt> = b.stmts[..i].to_vec();
    let rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
    let with_rest = |pre: Vec<Stmt>, fall: bool| -> Option<Block> {
        let mut v = pre;
        if fall {
            // an expression statement in the middle needs a semicolon
            if !rest.is_empty() {
                if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                    if semi.is_none() {
                        *semi = Some(Default::default());
                    }
                }
            }
            v.extend(rest.iter().cloned());
        }
        deret(&blk(v), q)
    };
    let branch = |e: &Expr| -> Option<Block> {
        let bl = to_block(e);
        let d = diverges(&bl);
        with_rest(bl.stmts, !d)
    };
    match &b.stmts[i] {
        Stmt::Expr(Expr::Return(r), _) => {
            if let Some(e) = &r.expr {
                out.push(tail_expr((**e).clone()));
                return deret(&blk(out), q);
            }
            return Some(blk(out));
        }
        Stmt::Expr(Expr::If(f), _) => {
            if has_ret_e(&f.cond, q) {
                return None;
            }
            let t = {
                let d = diverges(&f.then_branch);
                with_rest(f.then_branch.stmts.clone(), !d)?
            };
            let e = match &f.else_branch {
                Some((_, e)) => branch(e)?,
                None => with_rest(vec![], true)?,
            };
            let mut f2 = f.clone();
            f2.then_branch = t;
            f2.else_branch = Some((Default::default(), Box::new(block_expr(e))));
            out.push(tail_expr(Expr::If(f2)));
            Some(blk(out))
        }
        Stmt::Expr(Expr::Match(m), _) => {
            let scrut = &m.expr;
            if q {
                if let Expr::Try(_) = &**scrut {
                    return None;
                }
            }
            if has_ret_e(scrut, q) {
                return None;
            }
            let mut m2 = m.clone();
            for a in m2.arms.iter_mut() {
                a.body = Box::new(block_expr(branch(&a.body)?));
                a.comma = Some(Default::default());
            }
            out.push(tail_expr(Expr::Match(m2)));
            Some(blk(out))
        }
        Stmt::Expr(Expr::Block(bl), _) if bl.label.is_none() => {
            let d = diverges(&bl.block);
            let nb = with_rest(bl.block.stmts.clone(), !d)?;
            out.push(tail_expr(block_expr(nb)));
            Some(blk(out))
        }
        Stmt::Expr(Expr::Try(t), semi) if q => {
            if has_ret_e(&t.expr, q) {
                return None;
            }
            let e = &t.expr;
            if semi.is_none() && rest.is_empty() {
                return None;
            }
            let r = with_rest(vec![], true)?;
            let m: Expr = parse_quote!(match #e { Ok(_) => #r, Err(__e) => Err(From::from(__e)), });
            out.push(tail_expr(m));
            Some(blk(out))
        }
        Stmt::Expr(Expr::Call(c), None) if q => {
            // tail `Ok(E?)`
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident("Ok") && c.args.len() == 1 {
                    if let Expr::Try(t) = &c.args[0] {
                        if !has_ret_e(&t.expr, q) {
                            let e = &t.expr;
                            let m: Expr = parse_quote!(match #e { Ok(__v) => Ok(__v), Err(__e) => Err(From::from(__e)), });
                            out.push(tail_expr(m));
                            return Some(blk(out));
                        }
                    }
                }
            }
            None
        }
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let pat = &l.pat;
            if let Some((_, div)) = &init.diverge {
                if has_ret_e(&init.expr, q) {
                    return None;
                }
                let d = deret(&to_block(div), q)?;
                let r = with_rest(vec![], true)?;
                let e = &init.expr;
                let m: Expr = parse_quote!(match #e { #pat => #r, _ => #d, });
                out.push(tail_expr(m));
                return Some(blk(out));
            }
            let bind = |body: &Expr| -> Option<Block> {
                let bl = to_block(body);
                if diverges(&bl) {
                    return deret(&bl, q);
                }
                let mut l2 = l.clone();
                l2.init.as_mut().unwrap().expr = Box::new(body.clone());
                with_rest(vec![Stmt::Local(l2)], true)
            };
            match &*init.expr {
                Expr::Match(m) => {
                    if has_ret_e(&m.expr, q) {
                        return None;
                    }
                    let mut m2 = m.clone();
                    for a in m2.arms.iter_mut() {
                        a.body = Box::new(block_expr(bind(&a.body)?));
                        a.comma = Some(Default::default());
                    }
                    out.push(tail_expr(Expr::Match(m2)));
                    Some(blk(out))
                }
                Expr::If(f) => {
                    if has_ret_e(&f.cond, q) {
                        return None;
                    }
                    let t = bind(&block_expr(f.then_branch.clone()))?;
                    let e = bind(&f.else_branch.as_ref()?.1)?;
                    let mut f2 = f.clone();
                    f2.then_branch = t;
                    f2.else_branch = Some((Default::default(), Box::new(block_expr(e))));
                    out.push(tail_expr(Expr::If(f2)));
                    Some(blk(out))
                }
                Expr::Try(t) if q => {
                    if has_ret_e(&t.expr, q) {
                        return None;
                    }
                    let e = &t.expr;
                    let mut l2 = l.clone();
                    l2.init.as_mut().unwrap().expr = Box::new(parse_quote!(__v));
                    let r = with_rest(vec![Stmt::Local(l2)], true)?;
                    let m: Expr = parse_quote!(match #e { Ok(__v) => #r, Err(__e) => Err(From::from(__e)), });
                    out.push(tail_expr(m));
                    Some(blk(out))
                }
                _ => None,
            }
        }
        _ => None,
    }
}

/// In `helper(..)?` position: the value leaves of the body become `v` / `return Err(e)` / `leaf?`.
fn try_leaves(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        try_leaf(e);
    }
}
fn try_leaf(e: &mut Expr) {
    match e {
        Expr::Block(b) if b.label.is_none() => try_leaves(&mut b.block),
        Expr::If(i) => {
            try_leaves(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                try_leaf(x);
            }
        }
        Expr::Match(m) => {
            for a in m.arms.iter_mut() {
                try_leaf(&mut a.body);
                a.comma = Some(Default::default());
            }
        }
        Expr::Call(c) => {
            if let Expr::Path(p) = &*c.func {
                if c.args.len() == 1 {
                    if p.path.is_ident("Ok") {
                        *e = c.args[0].clone();
                        return;
                    }
                    if p.path.is_ident("Err") {
                        let a = c.args[0].clone();
                        // the error types agree
                        *e = parse_quote!(return Err(#a));
                        return;
                    }
                }
            }
            let o = e.clone();
            *e = parse_quote!(#o?);
        }
        Expr::Return(_) | Expr::Macro(_) => {}
        _ => {
            let o = e.clone();
            *e = parse_quote!((#o)?);
        }
    }
}

struct SubstSelf<'a> {
    recv: &'a Expr,
    recv_is_self: bool,
    ty: &'a Option<String>,
    bad: bool,
}
impl<'a> VisitMut for SubstSelf<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                if !self.recv_is_self {
                    *e = self.recv.clone();
                }
                return;
            }
        }
        if !self.recv_is_self {
            // a bare `self` argument would change from reference to place
            match e {
                Expr::Call(c) => {
                    for a in &c.args {
                        if let Expr::Path(p) = a {
                            if p.path.is_ident("self") {
                                self.bad = true;
                            }
                        }
                    }
                }
                Expr::MethodCall(c) => {
                    for a in &c.args {
                        if let Expr::Path(p) = a {
                            if p.path.is_ident("self") {
                                self.bad = true;
                            }
                        }
                    }
                }
                Expr::Unary(u) => {
                    if let (UnOp::Deref(_), Expr::Path(p)) = (&u.op, &*u.expr) {
                        if p.path.is_ident("self") {
                            *e = self.recv.clone();
                            return;
                        }
                    }
                }
                Expr::Match(m) => {
                    if let Expr::Path(p) = &*m.expr {
                        if p.path.is_ident("self") {
                            self.bad = true;
                        }
                    }
                }
                _ => {}
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let (Some(t), Some(f)) = (self.ty, p.segments.first_mut()) {
            if f.ident == "Self" {
                f.ident = Ident::new(t, f.ident.span());
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// makes the names of one module absolute
struct Absolute<'a>(&'a BTreeMap<String, String>);
impl<'a> VisitMut for Absolute<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.leading_colon.is_none() {
            if let Some(f) = p.segments.first() {
                if f.arguments.is_none() {
                    if let Some(a) = self.0.get(&f.ident.to_string()) {
                        if let Ok(a) = parse_str::<Path>(a) {
                            let mut n = a;
                            n.segments.extend(p.segments.iter().skip(1).cloned());
                            *p = n;
                        }
                    }
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if let Some(a) = self.0.get(&i.ident.to_string()) {
                if i.subpat.is_none() && i.by_ref.is_none() && i.mutability.is_none() {
                    if let Ok(a) = parse_str::<Path>(a) {
                        *p = Pat::Path(ExprPath { attrs: vec![], qself: None, path: a });
                        return;
                    }
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        _ => false,
    }
}

enum Pos {
    Tail,
    Try,
    Plain,
}

impl<'a> Inliner<'a> {
    /// type of a receiver, where it can be told from the signature and the field declarations
    fn recv_ty(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Paren(p) => self.recv_ty(&p.expr),
            Expr::Reference(r) => self.recv_ty(&r.expr),
            Expr::Path(p) if p.path.is_ident("self") => self.cur.self_ty.clone(),
            Expr::Path(p) => {
                let n = p.path.get_ident()?;
                self.cur.sig.inputs.iter().find_map(|a| match a {
                    FnArg::Typed(t) => match &*t.pat {
                        Pat::Ident(i) if i.ident == *n => head_ty(&t.ty),
                        _ => None,
                    },
                    _ => None,
                })
            }
            Expr::Field(f) => match &f.member {
                Member::Named(i) => self.fields.get(&i.to_string()).cloned(),
                _ => None,
            },
            _ => None,
        }
    }
    fn resolve(&self, e: &Expr) -> Option<(FnRec, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let c: Vec<&FnRec> = self
                    .helpers
                    .get(&name)?
                    .iter()
                    .filter(|f| f.self_ty.is_some() && f.sig.receiver().is_some())
                    .filter(|f| f.sig.inputs.len() == m.args.len() + 1)
                    .collect();
                let r = if c.len() == 1 {
                    c[0]
                } else {
                    let t = self.recv_ty(&m.receiver)?;
                    c.into_iter().find(|f| f.self_ty.as_ref() == Some(&t))?
                };
                if r.contracted {
                    return None;
                }
                Some((r.clone(), Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) => &p.path,
                    _ => return None,
                };
                let name = p.segments.last()?.ident.to_string();
                let cands = self.helpers.get(&name)?;
                let pen = if p.segments.len() >= 2 {
                    Some(p.segments[p.segments.len() - 2].ident.to_string())
                } else {
                    None
                };
                let ok: Vec<&FnRec> = cands
                    .iter()
                    .filter(|f| match &pen {
                        Some(s) if s == "Self" => f.self_ty == self.cur.self_ty,
                        Some(s) if s == "self" => f.self_ty.is_none() && f.module == self.cur.module,
                        Some(s) if s == "super" => {
                            f.self_ty.is_none() && self.cur.module.len() == f.module.len() + 1
                        }
                        Some(s) if s == "crate" => f.self_ty.is_none() && f.module.is_empty(),
                        Some(s) => {
                            f.self_ty.as_ref() == Some(s)
                                || (f.self_ty.is_none() && f.module.last() == Some(s))
                        }
                        None => f.self_ty.is_none(),
                    })
                    .collect();
                let f = if ok.len() == 1 {
                    ok[0]
                } else {
                    *ok.iter().find(|f| f.module == self.cur.module)?
                };
                if f.contracted {
                    return None;
                }
                let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                let mut recv = None;
                if f.sig.receiver().is_some() {
                    let a = args.remove(0);
                    recv = Some(match a {
                        Expr::Reference(r) => *r.expr,
                        x => x,
                    });
                }
                Some((f.clone(), recv, args))
            }
            _ => None,
        }
    }

    fn build(&mut self, e: &Expr, pos: Pos) -> Option<Expr> {
        let (f, recv, args) = self.resolve(e)?;
        let r = if self.depth > 6 { None } else { self.build1(&f, recv, args, pos) };
        match r {
            Some(x) => {
                self.done.insert(f.key.clone());
                Some(x)
            }
            None => {
                self.failed.insert(f.key.clone());
                None
            }
        }
    }

    fn build1(&mut self, f: &FnRec, recv: Option<Expr>, args: Vec<Expr>, pos: Pos) -> Option<Expr> {
        let mut body = f.block.clone();
        if f.module != self.cur.module {
            Absolute(&f.abs).visit_block_mut(&mut body);
        }
        let same_err = err_type(&f.sig.output) == err_type(&self.cur.sig.output);
        match pos {
            Pos::Tail => {
                let rt = f.sig.output.to_token_stream().to_string();
                let ct = self.cur.sig.output.to_token_stream().to_string();
                if rt != ct {
                    body = deret(&body, true)?;
                }
            }
            Pos::Try => {
                if !same_err {
                    return None;
                }
                body = deret(&body, false)?;
                try_leaves(&mut body);
            }
            Pos::Plain => {
                body = deret(&body, true)?;
            }
        }
        // receiver
        let mut pre: Vec<Stmt> = vec![];
        let self_expr: Expr = parse_quote!(self);
        let rv = recv.unwrap_or(self_expr);
        if f.sig.receiver().is_some() && !is_place(&rv) {
            return None;
        }
        let recv_is_self = matches!(&rv, Expr::Path(p) if p.path.is_ident("self"));
        let ty = if f.self_ty == self.cur.self_ty { None } else { f.self_ty.clone() };
        let mut ss = SubstSelf { recv: &rv, recv_is_self, ty: &ty, bad: false };
        ss.visit_block_mut(&mut body);
        if ss.bad {
            return None;
        }
        // parameters
        let generics: BTreeSet<String> =
            f.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let params: Vec<&PatType> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None })
            .collect();
        if params.len() != args.len() {
            return None;
        }
        let mut post: Vec<Stmt> = vec![];
        for (p, a) in params.iter().zip(args.iter()) {
            let tmp = format_ident!("__a{}", self.counter);
            self.counter += 1;
            let ts = p.ty.to_token_stream().to_string();
            let generic = ts.contains("impl ")
                || ts.contains('\'')
                || ts.contains("Self")
                || p.ty
                    .to_token_stream()
                    .into_iter()
                    .flat_map(flat)
                    .any(|t| generics.contains(&t));
            let pat = &p.pat;
            let t = &p.ty;
            match &**pat {
                Pat::Ident(_) | Pat::Wild(_) => {}
                _ => return None,
            }
            if generic {
                pre.push(parse_quote!(let #tmp = #a;));
            } else {
                pre.push(parse_quote!(let #tmp: #t = #a;));
            }
            post.push(parse_quote!(let #pat = #tmp;));
        }
        // nested helpers
        let sub = FnRec { block: body.clone(), module: f.module.clone(), ..self.cur.clone() };
        let mut inner = Inliner {
            helpers: self.helpers,
            fields: self.fields,
            cur: &sub,
            done: Default::default(),
            failed: Default::default(),
            depth: self.depth + 1,
            counter: self.counter + 1000 * (self.depth + 1),
        };
        inner.run(&mut body, matches!(pos, Pos::Tail));
        self.counter = inner.counter;
        self.done.extend(inner.done.clone());
        self.failed.extend(inner.failed.clone());
        let mut stmts = pre;
        stmts.extend(post);
        stmts.extend(body.stmts);
        let b = blk(stmts);
        Some(parse2(quote!(#b)).ok()?)
    }

    pub fn run(&mut self, b: &mut Block, tail: bool) {
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter_mut().enumerate() {
            let is_tail = tail && i + 1 == n;
            match s {
                Stmt::Expr(e, None) if is_tail => self.tail(e),
                _ => self.visit_stmt_mut(s),
            }
        }
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => self.run(&mut b.block, true),
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                self.run(&mut i.then_branch, true);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &mut a.guard {
                        self.visit_expr_mut(g);
                    }
                    self.tail(&mut a.body);
                }
            }
            _ => {
                if self.resolve(e).is_some() {
                    self.args(e);
                    if let Some(x) = self.build(e, Pos::Tail) {
                        *e = x;
                        return;
                    }
                    return;
                }
                self.visit_expr_mut(e)
            }
        }
    }
    fn args(&mut self, e: &mut Expr) {
        match e {
            Expr::Call(c) => {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            Expr::MethodCall(m) => {
                self.visit_expr_mut(&mut m.receiver);
                for a in m.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
            }
            _ => {}
        }
    }
}

fn flat(t: proc_macro2::TokenTree) -> Vec<String> {
    match t {
        proc_macro2::TokenTree::Group(g) => g.stream().into_iter().flat_map(flat).collect(),
        x => vec![x.to_string()],
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                if self.resolve(x).is_some() {
                    self.args(x);
                    if let Some(n) = self.build(x, Pos::Tail) {
                        **x = n;
                    }
                    return;
                }
            }
        }
        if let Expr::Try(t) = e {
            if self.resolve(&t.expr).is_some() {
                self.args(&mut t.expr);
                let x = t.expr.clone();
                if let Some(n) = self.build(&x, Pos::Try) {
                    *e = n;
                }
                return;
            }
        }
        if self.resolve(e).is_some() {
            self.args(e);
            if let Some(n) = self.build(&e.clone(), Pos::Plain) {
                *e = n;
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
