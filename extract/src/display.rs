//! Text output: the formatter of `core::fmt` is replaced by the stand-in of the prelude that carries contracts, and the
//! formatting macros by what they stand for (arguments first, then the pieces in order, stopping at the first error).
use proc_macro2::{Ident, Span};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Rewrites the functions of a file that make text.
#[derive(Default)]
pub struct Text { pub counts: BTreeMap<&'static str, usize>, fresh: usize, on: bool }
impl Text {
    fn bump(&mut self, k: &'static str) { *self.counts.entry(k).or_default() += 1; }
    pub fn file(&mut self, f: &mut File) {
        for it in &mut f.items {
            match it {
                Item::Fn(g) if !crate::is_cfg_test(&g.attrs) => { Paths.visit_item_fn_mut(g); self.body(&g.sig.clone(), &mut g.block); }
                Item::Impl(i) if !crate::is_cfg_test(&i.attrs) => {
                    if let Some((_, p, _)) = &i.trait_ { if ["Debug", "Error"].contains(&p.segments.last().unwrap().ident.to_string().as_str()) { continue; } }
                    Paths.visit_item_impl_mut(i);
                    for x in &mut i.items { if let ImplItem::Fn(g) = x { self.body(&g.sig.clone(), &mut g.block); } }
                }
                _ => {}
            }
        }
    }
    fn body(&mut self, sig: &Signature, b: &mut Block) { self.on = makes_text(sig); self.visit_block_mut(b); }
}
impl VisitMut for Text {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if self.on { if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            if let Some(n) = expr(self, &e) { *s = Stmt::Expr(n, m.semi_token); }
        } }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.on { if let Some(n) = expr(self, e) { *e = n; } }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct Paths;
impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        let last = p.segments[n - 1].ident.to_string();
        let in_fmt = n >= 2 && p.segments[n - 2].ident == "fmt";
        let alone = n == 1;
        let new: Option<Path> = match last.as_str() {
            "Formatter" if in_fmt || alone => Some(parse_quote!(crate::prelude::VpFormatter)),
            "Display" if in_fmt || alone => Some(parse_quote!(crate::prelude::VpDisplay)),
            "Error" if in_fmt => Some(parse_quote!(crate::prelude::VpFmtError)),
            "Result" if in_fmt => Some(parse_quote!(core::result::Result<(), crate::prelude::VpFmtError>)),
            _ => None,
        };
        if let Some(new) = new { *p = new; }
    }
}

/// Whether a function returns text or writes to a formatter.
pub fn makes_text(sig: &Signature) -> bool {
    let out = sig.output.to_token_stream().to_string();
    let ins = sig.inputs.to_token_stream().to_string();
    out.trim_start_matches("-> ").trim() == "String" || ins.contains("VpFormatter") || ins.contains("mut String")
}

struct Args { target: Option<Expr>, fmt: String, pos: Vec<Expr>, named: Vec<(Ident, Expr)> }

fn args(m: &Macro, with_target: bool) -> Option<Args> {
    struct A(Args);
    let f = |i: parse::ParseStream| -> Result<A> {
        let target = if with_target { let e: Expr = i.parse()?; if !i.is_empty() { i.parse::<Token![,]>()?; } Some(e) } else { None };
        let fmt = if i.is_empty() { String::new() } else { i.parse::<LitStr>()?.value() };
        let (mut pos, mut named) = (vec![], vec![]);
        while i.peek(Token![,]) {
            i.parse::<Token![,]>()?;
            if i.is_empty() { break; }
            if i.peek(syn::Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) { let n: Ident = i.parse()?; i.parse::<Token![=]>()?; named.push((n, i.parse()?)); }
            else { pos.push(i.parse()?); }
        }
        Ok(A(Args { target, fmt, pos, named }))
    };
    m.parse_body_with(f).ok().map(|a| a.0)
}

enum Piece { Lit(String), Arg(usize) }

/// The pieces of a format string; the arguments are extended by the variables it captures.
fn pieces(a: &mut Args) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let mut next = 0;
    let n_pos = a.pos.len();
    let mut all: Vec<(Option<String>, Expr)> = a.pos.drain(..).map(|e| (None, e)).collect();
    all.extend(a.named.drain(..).map(|(n, e)| (Some(n.to_string()), e)));
    let mut c = a.fmt.chars().peekable();
    while let Some(ch) = c.next() {
        match ch {
            '{' if c.peek() == Some(&'{') => { c.next(); lit.push('{'); }
            '}' if c.peek() == Some(&'}') => { c.next(); lit.push('}'); }
            '{' => {
                let mut name = String::new();
                loop { match c.next()? { '}' => break, x => name.push(x) } }
                let name = name.trim();
                let k = if name.is_empty() { let k = next; next += 1; if k >= n_pos { return None; } k }
                    else if let Ok(k) = name.parse::<usize>() { if k >= n_pos { return None; } k }
                    else {
                        if name.contains(':') { return None; }
                        match all.iter().position(|(n, _)| n.as_deref() == Some(name)) {
                            Some(k) => k,
                            None => { let id: Ident = parse_str(name).ok()?; all.push((Some(name.to_string()), parse_quote!(#id))); all.len() - 1 }
                        }
                    };
                if !lit.is_empty() { out.push(Piece::Lit(std::mem::take(&mut lit))); }
                out.push(Piece::Arg(k));
            }
            '}' => return None,
            x => lit.push(x),
        }
    }
    if !lit.is_empty() { out.push(Piece::Lit(lit)); }
    a.pos = all.into_iter().map(|(_, e)| e).collect();
    Some(out)
}

/// The expression that writes the pieces to `target` (a formatter or a mutable reference to one).
fn write(env: &mut Text, target: Expr, by_ref: bool, a: &Args, ps: &[Piece]) -> Expr {
    let n = env.fresh;
    env.fresh += 1;
    let arg = |k: usize| Ident::new(&format!("vp_a{}_{}", n, k), Span::call_site());
    let lets: Vec<Stmt> = a.pos.iter().enumerate().map(|(k, e)| { let i = arg(k); parse_quote!(let #i = &(#e);) }).collect();
    let t: Expr = if by_ref { parse_quote!(&mut #target) } else { parse_quote!(&mut *#target) };
    let mut e: Option<Expr> = None;
    for p in ps.iter().rev() {
        let this: Expr = match p {
            Piece::Lit(s) => { let s = LitStr::new(s, Span::call_site()); parse_quote!(crate::prelude::vp_write(#t, #s)) }
            Piece::Arg(k) => { let i = arg(*k); parse_quote!(crate::prelude::vp_show(#i, #t)) }
        };
        e = Some(match e { None => this, Some(rest) => parse_quote!(match #this { Err(vp_e) => Err(vp_e), Ok(_) => #rest }) });
    }
    let e = e.unwrap_or_else(|| parse_quote!(Ok(())));
    parse_quote!({ #(#lets)* #e })
}

fn name(m: &Macro) -> String { m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

pub fn expr(env: &mut Text, e: &Expr) -> Option<Expr> {
    match e {
        Expr::Macro(m) => match name(&m.mac).as_str() {
            w @ ("write" | "writeln") => {
                let mut a = args(&m.mac, true)?;
                if w == "writeln" { a.fmt.push('\n'); }
                let t = a.target.clone()?;
                if !matches!(t, Expr::Path(_)) { return None; }
                let ps = pieces(&mut a)?;
                env.bump("write!");
                Some(write(env, t, false, &a, &ps))
            }
            "format" => {
                let mut a = args(&m.mac, false)?;
                let ps = pieces(&mut a)?;
                env.bump("format!");
                let f = Ident::new(&format!("vp_f{}", env.fresh), Span::call_site());
                let w = write(env, parse_quote!(#f), true, &a, &ps);
                // a value whose Display fails makes format! panic
                Some(parse_quote!({ let mut #f = crate::prelude::vp_formatter(); match #w { Ok(_) => {} Err(_) => { crate::prelude::vp_panic(); } } crate::prelude::vp_finish(#f) }))
            }
            _ => None,
        },
        Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) && text(&b.right) => {
            let (l, r) = (&b.left, &b.right);
            env.bump("String += &str");
            Some(parse_quote!(crate::prelude::vp_push(&mut #l, #r)))
        }
        Expr::Binary(b) if matches!(b.op, BinOp::Add(_)) && text(&b.right) => {
            let (l, r) = (&b.left, &b.right);
            env.bump("String + &str");
            Some(parse_quote!(crate::prelude::vp_concat(#l, #r)))
        }
        Expr::MethodCall(m) if m.method == "push_str" && m.args.len() == 1 => {
            let (l, r) = (&m.receiver, &m.args[0]);
            env.bump("String::push_str");
            Some(parse_quote!(crate::prelude::vp_push(&mut #l, #r)))
        }
        Expr::MethodCall(m) if m.method == "push" && m.args.len() == 1 => {
            // a character literal: the same as the text of that one character
            let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = &m.args[0] else { return None };
            let (l, r) = (&m.receiver, LitStr::new(&c.value().to_string(), Span::call_site()));
            env.bump("String::push");
            Some(parse_quote!(crate::prelude::vp_push(&mut #l, #r)))
        }
        Expr::MethodCall(m) if m.method == "write_str" && m.args.len() == 1 => {
            let (l, r) = (&m.receiver, &m.args[0]);
            env.bump("Formatter::write_str");
            Some(parse_quote!(crate::prelude::vp_write(#l, #r)))
        }
        Expr::MethodCall(m) if m.method == "to_string" && m.args.is_empty() => {
            let l = &m.receiver;
            env.bump("to_string");
            Some(parse_quote!(crate::prelude::vp_to_string(&#l)))
        }
        _ => None,
    }
}

/// A string literal or a reference: what may be added to a String.
fn text(e: &Expr) -> bool {
    match e { Expr::Reference(r) => r.mutability.is_none(), Expr::Lit(l) => matches!(l.lit, Lit::Str(_)), Expr::Paren(p) => text(&p.expr), _ => false }
}
