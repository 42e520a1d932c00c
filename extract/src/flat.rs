//! A helper with early exits, written as one expression: what follows an exit goes into the branch that does not
//! take it. Used to expand a helper where its exits cannot leave the caller.
use proc_macro2::{Ident, Span};
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default)]
struct Leaves { yes: bool }
impl<'ast> Visit<'ast> for Leaves {
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.yes = true; }
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.yes = true; }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
}
fn leaves(e: &Expr) -> bool { let mut l = Leaves::default(); l.visit_expr(e); l.yes }
fn leaves_stmt(s: &Stmt) -> bool { let mut l = Leaves::default(); l.visit_stmt(s); l.yes }

struct Uses<'a> { names: &'a [String], yes: bool }
impl<'ast, 'a> Visit<'ast> for Uses<'a> {
    fn visit_ident(&mut self, i: &'ast Ident) { if self.names.iter().any(|n| i == n.as_str()) { self.yes = true; } }
    fn visit_macro(&mut self, m: &'ast Macro) { let t = m.tokens.to_string(); if self.names.iter().any(|n| t.contains(n.as_str())) { self.yes = true; } visit::visit_macro(self, m) }
}
/// Whether the names of a pattern would hide names of what follows.
fn hides(p: &Pat, rest: &[Stmt]) -> bool {
    let mut n = crate::Names::default();
    n.visit_pat(p);
    let mut u = Uses { names: &n.v, yes: false };
    for s in rest { u.visit_stmt(s); }
    u.yes
}

#[derive(Clone, Copy)]
enum Kind { Option, Result, Other }

pub struct Flat { kind: Kind, fresh: usize, pub copies: usize }

/// The body of a function of this type without early exits, if it can be written so.
pub fn flatten(sig: &Signature, b: &Block) -> Option<Block> {
    let kind = match &sig.output {
        ReturnType::Type(_, t) => match &**t { Type::Path(p) => match p.path.segments.last()?.ident.to_string().as_str() { "Option" => Kind::Option, "Result" => Kind::Result, _ => Kind::Other }, _ => Kind::Other },
        _ => Kind::Other,
    };
    let mut f = Flat { kind, fresh: 0, copies: 0 };
    let stmts = f.seq(&b.stmts)?;
    Some(Block { brace_token: Default::default(), stmts })
}

impl Flat {
    fn name(&mut self) -> Ident { self.fresh += 1; Ident::new(&format!("vp_f{}", self.fresh), Span::call_site()) }

    fn rest(&mut self, head: Vec<Stmt>, rest: &[Stmt]) -> Option<Expr> {
        let mut out = head;
        out.extend(self.seq(rest)?);
        Some(parse_quote!({ #(#out)* }))
    }

    /// match x { go on with the value as `v`, else leave }
    fn tried(&mut self, x: &Expr, v: &Ident, then: Expr) -> Option<Expr> {
        let e = self.name();
        Some(match self.kind {
            Kind::Option => parse_quote!(match #x { Some(#v) => #then, None => None }),
            Kind::Result => parse_quote!(match #x { Ok(#v) => #then, Err(#e) => Err(#e) }),
            Kind::Other => return None,
        })
    }

    fn seq(&mut self, stmts: &[Stmt]) -> Option<Vec<Stmt>> {
        let Some((s, rest)) = stmts.split_first() else { return Some(vec![]) };
        if !leaves_stmt(s) {
            let mut out = vec![s.clone()];
            out.extend(self.seq(rest)?);
            return Some(out);
        }
        let one = |e: Expr| Some(vec![Stmt::Expr(e, None)]);
        match s {
            Stmt::Expr(e, None) if rest.is_empty() => { let v = self.value(e)?; one(v) }
            Stmt::Expr(Expr::Return(r), _) => match &r.expr { Some(e) => { let v = self.value(e)?; one(v) } None => Some(vec![]) },
            Stmt::Expr(Expr::Try(t), Some(_)) if !leaves(&t.expr) => {
                let v = self.name();
                let then = self.rest(vec![], rest)?;
                let x = self.tried(&t.expr, &v, then)?;
                one(x)
            }
            Stmt::Expr(e @ (Expr::If(_) | Expr::Match(_)), _) => { let x = self.branch(e, None, rest)?; one(x) }
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if let Some((_, d)) = &init.diverge {
                    if leaves(&init.expr) { return None; }
                    let (p, x) = (&l.pat, &init.expr);
                    let d = self.value(d)?;
                    let then = self.rest(vec![], rest)?;
                    return one(parse_quote!(match #x { #p => #then, _ => #d }));
                }
                match &*init.expr {
                    Expr::Try(t) if !leaves(&t.expr) => {
                        let (v, p) = (self.name(), &l.pat);
                        let then = self.rest(vec![parse_quote!(let #p = #v;)], rest)?;
                        let x = self.tried(&t.expr, &v, then)?;
                        one(x)
                    }
                    e @ (Expr::If(_) | Expr::Match(_)) => { let x = self.branch(e, Some(&l.pat), rest)?; one(x) }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// One branch of a statement: it leaves, or what follows comes after it.
    fn arm(&mut self, e: &Expr, pat: Option<&Pat>, binds: Option<&Pat>, rest: &[Stmt]) -> Option<Expr> {
        if let Expr::Return(_) = e { return self.value(e); }
        if let Expr::Block(b) = e {
            if matches!(b.block.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))) { let s = self.seq(&b.block.stmts)?; return Some(parse_quote!({ #(#s)* })); }
        }
        if leaves(e) || binds.is_some_and(|p| hides(p, rest)) { return None; }
        self.copies += 1;
        if self.copies > 3 { return None; }
        match pat { Some(p) => self.rest(vec![parse_quote!(let #p = #e;)], rest), None => self.rest(vec![Stmt::Expr(e.clone(), Some(Default::default()))], rest) }
    }

    fn branch(&mut self, e: &Expr, pat: Option<&Pat>, rest: &[Stmt]) -> Option<Expr> {
        match e {
            Expr::If(i) if !leaves(&i.cond) => {
                let c = &i.cond;
                let binds = match &**c { Expr::Let(l) => Some(&*l.pat), Expr::Binary(_) => { let mut n = crate::Names::default(); n.visit_expr(c); if n.v.is_empty() { None } else { return None } } _ => None };
                let t = &i.then_branch;
                let a = self.arm(&parse_quote!(#t), pat, binds, rest)?;
                let b = match &i.else_branch { Some((_, x)) => self.arm(x, pat, None, rest)?, None => self.rest(vec![], rest)? };
                Some(parse_quote!(if #c { #a } else { #b }))
            }
            Expr::Match(m) if !leaves(&m.expr) => {
                let x = &m.expr;
                let mut arms: Vec<Arm> = vec![];
                for a in &m.arms {
                    if a.guard.as_ref().is_some_and(|g| leaves(&g.1)) { return None; }
                    let body = self.arm(&a.body, pat, Some(&a.pat), rest)?;
                    arms.push(Arm { body: Box::new(body), comma: Some(Default::default()), ..a.clone() });
                }
                Some(parse_quote!(match #x { #(#arms)* }))
            }
            _ => None,
        }
    }

    fn value(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::Return(r) = e { return self.value(r.expr.as_ref()?); }
        if !leaves(e) { return Some(e.clone()); }
        match e {
            Expr::Paren(p) => self.value(&p.expr),
            Expr::Block(b) if b.label.is_none() => { let s = self.seq(&b.block.stmts)?; Some(parse_quote!({ #(#s)* })) }
            Expr::If(i) if !leaves(&i.cond) => {
                let c = &i.cond;
                let t = self.seq(&i.then_branch.stmts)?;
                let f = self.value(&i.else_branch.as_ref()?.1)?;
                Some(parse_quote!(if #c { #(#t)* } else { #f }))
            }
            Expr::Match(m) if !leaves(&m.expr) => {
                let x = &m.expr;
                let mut arms: Vec<Arm> = vec![];
                for a in &m.arms {
                    if a.guard.as_ref().is_some_and(|g| leaves(&g.1)) { return None; }
                    arms.push(Arm { body: Box::new(self.value(&a.body)?), comma: Some(Default::default()), ..a.clone() });
                }
                Some(parse_quote!(match #x { #(#arms)* }))
            }
            Expr::Try(t) if !leaves(&t.expr) => { let v = self.name(); self.tried(&t.expr, &v, parse_quote!(#v)) }
            Expr::Call(c) if c.args.len() == 1 && !leaves(&c.func) => {
                let Expr::Try(t) = &c.args[0] else { return None };
                if leaves(&t.expr) { return None; }
                let (v, f) = (self.name(), &c.func);
                self.tried(&t.expr, &v, parse_quote!(#f(#v)))
            }
            _ => None,
        }
    }
}
