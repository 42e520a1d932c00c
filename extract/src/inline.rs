//! Puts the bodies of functions that carry no contract of their own back where they are called, so that
//! extracting a helper from a function under contract leaves the verified text as it was.
//!
//! A call is expanded only where that cannot change its meaning: the helper does not call itself, and its
//! body either has no early exit, or its early exits leave the caller the same way the call would
//! (`helper(..)?` with the same error type, or a call in tail position with the same return type).
use proc_macro2::{Ident, Span};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
pub struct Helper { pub owner: String, pub sig: Signature, pub block: Block }

#[derive(Default)]
struct Exits { returns: usize, return_ok: usize, tries: usize, calls: Vec<String>, macros: bool }
impl<'ast> Visit<'ast> for Exits {
    fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
        self.returns += 1;
        let bad = match r.expr.as_deref() { Some(e) => { let s = e.to_token_stream().to_string(); s.starts_with("Err") || s == "None" } None => false };
        if !bad { self.return_ok += 1; }
        visit::visit_expr_return(self, r)
    }
    fn visit_expr_try(&mut self, t: &'ast ExprTry) { self.tries += 1; visit::visit_expr_try(self, t) }
    fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    fn visit_item(&mut self, _: &'ast Item) { self.macros = true; }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { self.calls.push(p.path.segments.last().unwrap().ident.to_string()); }
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) { self.calls.push(c.method.to_string()); visit::visit_expr_method_call(self, c) }
}

fn exits(b: &Block) -> Exits { let mut e = Exits::default(); e.visit_block(b); e }

fn text(t: &impl ToTokens) -> String { t.to_token_stream().to_string() }

fn result_parts(t: &ReturnType) -> Option<(String, String)> {
    if let ReturnType::Type(_, t) = t { if let Type::Path(p) = &**t {
        let s = p.path.segments.last()?;
        let n = s.ident.to_string();
        if n != "Result" && n != "Option" { return None; }
        if let PathArguments::AngleBracketed(a) = &s.arguments { return Some((n, a.args.iter().nth(1).map(|x| text(x)).unwrap_or_default())); }
    } }
    None
}

struct SelfSubst { with: Expr }
impl VisitMut for SelfSubst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e { if p.path.is_ident("self") { *e = self.with.clone(); return; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Lifetimes;
impl VisitMut for Lifetimes {
    fn visit_lifetime_mut(&mut self, l: &mut Lifetime) { if l.ident != "static" { *l = Lifetime::new("'_", Span::call_site()); } }
}

struct SelfType(Ident);
impl VisitMut for SelfType {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if let Some(f) = p.segments.first_mut() { if f.ident == "Self" { f.ident = self.0.clone(); } }
    }
}

pub struct Inliner<'a> {
    pub helpers: &'a BTreeMap<String, Helper>,
    pub owner: String,
    pub output: ReturnType,
    pub fresh: usize,
    pub done: Vec<String>,
    pub in_closure: usize,
}

fn place(e: &Expr) -> bool {
    match e { Expr::Path(_) => true, Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && place(&u.expr), _ => false }
}

#[derive(Clone, Copy, PartialEq)]
enum Site { Plain, Try, Tail }

impl<'a> Inliner<'a> {
    fn find(&self, e: &Expr) -> Option<(&'a Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.len();
                    let name = p.path.segments.last()?.ident.to_string();
                    let owner = if n == 1 { String::new() } else {
                        let o = p.path.segments[n - 2].ident.to_string();
                        if o == "Self" { self.owner.clone() } else { o }
                    };
                    let h = self.helpers.get(&format!("{}::{}", owner, name))?;
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    let recv = if h.sig.receiver().is_some() { if args.is_empty() { return None; } Some(args.remove(0)) } else { None };
                    return Some((h, recv, args));
                }
                None
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let own = text(&m.receiver) == "self";
                let h = if own { self.helpers.get(&format!("{}::{}", self.owner, name))? } else {
                    // a method of something else: the only helper of that name
                    let mut all = self.helpers.iter().filter(|(k, h)| k.ends_with(&format!("::{}", name)) && h.sig.receiver().is_some());
                    let h = all.next()?.1;
                    if all.next().is_some() { return None; }
                    h
                };
                h.sig.receiver()?;
                Some((h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            _ => None,
        }
    }

    fn expand(&mut self, e: &Expr, site: Site) -> Option<Expr> {
        let (h, recv, args) = self.find(e)?;
        let x = exits(&h.block);
        if x.macros || x.calls.contains(&h.sig.ident.to_string()) { return None; }
        let same = text(&h.sig.output) == text(&self.output) && self.in_closure == 0;
        let leaves = x.returns + x.tries > 0;
        // the exits of the helper are exits of the caller, or there are none
        let as_is = !leaves || match site {
            Site::Plain => false,
            Site::Tail => same,
            Site::Try => self.in_closure == 0 && x.return_ok == 0 && result_parts(&h.sig.output).is_some() && result_parts(&h.sig.output) == result_parts(&self.output),
        };
        let mut block = if as_is { h.block.clone() } else { crate::flat::flatten(&h.sig, &h.block)? };
        let unwrap = site == Site::Try;
        if h.owner != self.owner && !h.owner.is_empty() { SelfType(Ident::new(&h.owner, Span::call_site())).visit_block_mut(&mut block); }
        if let Some(r) = recv {
            let mut r = r;
            while let Expr::Reference(x) = &r { r = (*x.expr).clone(); }
            if !place(&r) { return None; }
            if text(&r) != "self" {
                if exits(&block).calls.iter().any(|c| self.helpers.contains_key(&format!("{}::{}", h.owner, c))) && h.owner != self.owner { return None; }
                SelfSubst { with: r }.visit_block_mut(&mut block);
            }
        }
        let params: Vec<&PatType> = h.sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { Some(t) } else { None }).collect();
        if params.len() != args.len() { return None; }
        let generics: Vec<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        let mut first: Vec<Stmt> = vec![];
        let mut second: Vec<Stmt> = vec![];
        for (p, a) in params.iter().zip(args) {
            let pat = &p.pat;
            if text(pat) == text(&a) { continue; }
            let t = text(&p.ty);
            let known = !t.contains("impl ") && !t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| generics.iter().any(|g| g == w) || w == "Self");
            let mut ty = (*p.ty).clone();
            Lifetimes.visit_type_mut(&mut ty);
            let mut a = a;
            self.visit_expr_mut(&mut a);
            // a plain variable or literal that no parameter shadows needs no detour
            let v = Ident::new(&format!("vp_a{}", self.fresh), Span::call_site());
            self.fresh += 1;
            let clash = params.iter().any(|q| text(&q.pat) != text(pat) && { let mut f = Mentions { n: text(&q.pat), yes: false }; f.visit_expr(&a); f.yes });
            if clash {
                first.push(if known { parse_quote!(let #v: #ty = #a;) } else { parse_quote!(let #v = #a;) });
                second.push(if known { parse_quote!(let #pat: #ty = #v;) } else { parse_quote!(let #pat = #v;) });
            } else {
                second.push(if known { parse_quote!(let #pat: #ty = #a;) } else { parse_quote!(let #pat = #a;) });
            }
        }
        self.done.push(h.sig.ident.to_string());
        let owner = std::mem::replace(&mut self.owner, h.owner.clone());
        self.visit_block_mut(&mut block);
        self.owner = owner;
        let mut stmts = first;
        stmts.extend(second);
        stmts.extend(block.stmts);
        if unwrap {
            match stmts.pop() {
                Some(Stmt::Expr(t, None)) => stmts.push(Stmt::Expr(unwrapped(t), None)),
                _ => return None,
            }
        }
        if stmts.len() == 1 { if let Stmt::Expr(t, None) = &stmts[0] { return Some(parse_quote!((#t))); } }
        Some(parse_quote!({ #(#stmts)* }))
    }
}

/// The expression `t?`, with `Ok(v)?` as `v`.
fn unwrapped(t: Expr) -> Expr {
    if let Expr::Call(c) = &t {
        if let Expr::Path(p) = &*c.func { if (p.path.is_ident("Ok") || p.path.is_ident("Some")) && c.args.len() == 1 { return c.args[0].clone(); } }
    }
    parse_quote!((#t)?)
}

struct Mentions { n: String, yes: bool }
impl<'ast> Visit<'ast> for Mentions {
    fn visit_ident(&mut self, i: &'ast Ident) { if i.to_string() == self.n { self.yes = true; } }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) { self.in_closure += 1; visit_mut::visit_expr_closure_mut(self, c); self.in_closure -= 1; }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            let inner = (*t.expr).clone();
            if let Some(n) = self.expand(&inner, Site::Try) { *e = n; return; }
        }
        if let Expr::Return(r) = e {
            if let Some(x) = &r.expr {
                let x = (**x).clone();
                if self.in_closure == 0 { if let Some(n) = self.expand(&x, Site::Tail) { r.expr = Some(Box::new(n)); return; } }
            }
        }
        if let Some(n) = self.expand(e, Site::Plain) { *e = n; return; }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn tail_calls(i: &mut Inliner, e: &mut Expr) {
    match e {
        Expr::Block(b) => tail_block(i, &mut b.block),
        Expr::If(f) => { tail_block(i, &mut f.then_branch); if let Some((_, x)) = &mut f.else_branch { tail_calls(i, x); } }
        Expr::Match(m) => for a in &mut m.arms { tail_calls(i, &mut a.body); },
        Expr::Call(_) | Expr::MethodCall(_) => if let Some(n) = i.expand(&e.clone(), Site::Tail) { *e = n; },
        _ => {}
    }
}
fn tail_block(i: &mut Inliner, b: &mut Block) { if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() { tail_calls(i, e); } }

/// Expands the calls of helpers in a function; returns the names of those expanded.
pub fn inline(owner: &str, sig: &Signature, block: &mut Block, helpers: &BTreeMap<String, Helper>, fresh: &mut usize) -> Vec<String> {
    let mut i = Inliner { helpers, owner: owner.to_string(), output: sig.output.clone(), fresh: *fresh, done: vec![], in_closure: 0 };
    tail_block(&mut i, block);
    i.visit_block_mut(block);
    *fresh = i.fresh;
    i.done
}

pub fn calls(b: &Block) -> Vec<String> { exits(b).calls }
