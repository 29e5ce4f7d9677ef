//! Iterator chains that end in `collect`, `for_each` or `try_for_each`, as the loops they are.
use quote::{format_ident, quote};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Esc {
    ret: bool,
    tr: bool,
}
impl<'ast> Visit<'ast> for Esc {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) {
        self.tr = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_expr_macro(&mut self, _: &'ast ExprMacro) {
        self.ret = true;
    }
}

fn source(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => match (m.method.to_string().as_str(), m.args.len()) {
            ("iter" | "into_iter", 0) | ("drain", 1) => true,
            ("rev" | "enumerate" | "copied" | "cloned", 0) | ("skip" | "take", 1) => source(&m.receiver),
            _ => false,
        },
        Expr::Paren(p) => matches!(&*p.expr, Expr::Range(_)),
        _ => false,
    }
}

enum To {
    Vec,
    Res,
}

pub struct Chains {
    n: usize,
}

impl Chains {
    pub fn run(sig: &Signature, body: &mut Block) {
        let mut c = Chains { n: 0 };
        let res = match &sig.output {
            ReturnType::Type(_, t) => matches!(&**t, Type::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "Result")),
            _ => false,
        };
        if res {
            if let Some(Stmt::Expr(e, None)) = body.stmts.last_mut() {
                c.tail(e);
            }
        }
        c.visit_block_mut(body);
    }
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => {
                if let Some(Stmt::Expr(e, None)) = b.block.stmts.last_mut() {
                    self.tail(e);
                }
            }
            Expr::If(i) => {
                if let Some(Stmt::Expr(e, None)) = i.then_branch.stmts.last_mut() {
                    self.tail(e);
                }
                if let Some((_, e)) = &mut i.else_branch {
                    self.tail(e);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| self.tail(&mut a.body)),
            Expr::MethodCall(m) => {
                if let Some(x) = self.chain(m, true) {
                    *e = parse_quote!(Ok(#x));
                }
            }
            _ => {}
        }
    }
    fn target(&self, m: &ExprMethodCall, tried: bool) -> Option<To> {
        let name = match &m.turbofish {
            Some(t) => match t.args.first()? {
                GenericArgument::Type(Type::Path(p)) => Some(p.path.segments.last()?.ident.to_string()),
                _ => None,
            },
            None => None,
        };
        match (name.as_deref(), tried) {
            (Some("Result"), true) => Some(To::Res),
            (None, true) => Some(To::Res),
            (Some("Vec"), false) => Some(To::Vec),
            _ => None,
        }
    }
    /// `tried`: the chain is a Result whose error leaves the function; the value is the expression of its Ok
    fn chain(&mut self, m: &ExprMethodCall, tried: bool) -> Option<Expr> {
        let (c, x, y, er) = (format_ident!("__c{}", self.n), format_ident!("__x{}", self.n), format_ident!("__y{}", self.n), format_ident!("__e{}", self.n));
        let end = m.method.to_string();
        let (mut inner, to): (Expr, Option<To>) = match (end.as_str(), m.args.len()) {
            ("collect", 0) => {
                let t = self.target(m, tried)?;
                (
                    match t {
                        To::Vec => parse_quote!({ #c.push(#x); }),
                        To::Res => parse_quote!(match #x { Ok(#y) => { #c.push(#y); } Err(#er) => return Err(#er), }),
                    },
                    Some(t),
                )
            }
            ("for_each", 1) if !tried => (self.apply(&m.args[0], &parse_quote!(#x), false, false)?, None),
            ("try_for_each", 1) if tried => {
                let a = self.apply(&m.args[0], &parse_quote!(#x), false, true)?;
                (parse_quote!(match #a { Ok(_) => {} Err(#er) => return Err(#er), }), None)
            }
            _ => return None,
        };
        let mut e = (*m.receiver).clone();
        let mut last = true;
        let mut steps = 0;
        while let Expr::MethodCall(s) = &e {
            let item: Expr = parse_quote!(#x);
            let n = s.method.to_string();
            if !matches!(n.as_str(), "map" | "filter" | "filter_map") || s.args.len() != 1 {
                break;
            }
            // an error raised by `?` in the closure is the item collected
            let ok = last && n == "map" && matches!(to, Some(To::Res));
            let a = self.apply(&s.args[0], &item, n == "filter", ok)?;
            inner = match n.as_str() {
                "map" if ok => parse_quote!({ let #y = #a?; #c.push(#y); }),
                "map" => parse_quote!({ let #x = #a; #inner }),
                "filter" => parse_quote!(if #a { #inner }),
                _ => parse_quote!(match #a { Some(#x) => { #inner } None => {} }),
            };
            last = false;
            steps += 1;
            e = (*s.receiver).clone();
        }
        if !source(&e) || (steps == 0 && end == "collect") {
            return None;
        }
        self.n += 1;
        if let Expr::Paren(p) = &e {
            e = (*p.expr).clone();
        }
        Some(match to {
            Some(_) => parse_quote!({ let mut #c = Vec::new(); for #x in #e { #inner } #c }),
            None => parse_quote!({ for #x in #e { #inner } }),
        })
    }
    fn apply(&self, f: &Expr, item: &Expr, by_ref: bool, try_ok: bool) -> Option<Expr> {
        let v: Expr = if by_ref { parse_quote!(&#item) } else { item.clone() };
        match f {
            Expr::Closure(c) if c.inputs.len() == 1 => {
                let mut x = Esc { ret: false, tr: false };
                x.visit_expr(&c.body);
                if x.ret || (x.tr && !try_ok) {
                    return None;
                }
                let (p, b) = (&c.inputs[0], &c.body);
                Some(match b.as_ref() {
                    Expr::Block(b) if b.label.is_none() => {
                        let ss = &b.block.stmts;
                        parse_quote!({ let #p = #v; #(#ss)* })
                    }
                    b => parse_quote!({ let #p = #v; #b }),
                })
            }
            Expr::Path(p) => Some(parse_quote!(#p(#v))),
            _ => None,
        }
    }
}

impl VisitMut for Chains {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if let Expr::MethodCall(m) = &*t.expr {
                if let Some(x) = self.chain(m, true) {
                    *e = x;
                }
            }
        } else if let Expr::MethodCall(m) = e {
            if let Some(x) = self.chain(m, false) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // `let v: Vec<_> = ….collect();`
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            if let (Type::Path(p), Expr::MethodCall(m)) = (&*t.ty, &mut *i.expr) {
                if p.path.segments.last().map_or(false, |s| s.ident == "Vec") && m.method == "collect" && m.turbofish.is_none() {
                    m.turbofish = Some(parse_quote!(::<Vec<_>>));
                    let _ = quote!(#m);
                    if let Some(x) = self.chain(&m.clone(), false) {
                        *i.expr = x;
                    } else {
                        m.turbofish = None;
                    }
                }
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
}
