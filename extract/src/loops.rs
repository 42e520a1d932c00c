//! Loops written in another form than when their contract was written: iteration over a slice where the contract
//! speaks about an index becomes the loop over the index, and the contract text is shifted when the index is.
use proc_macro2::{Ident, Span};
use quote::ToTokens;
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Loop variable, first value and bound, as source text.
pub type Info = Option<(String, String, String)>;

fn text<T: ToTokens>(t: &T) -> String { t.to_token_stream().to_string() }

fn strip(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip(&p.expr), e => e } }

pub fn of_for(f: &ExprForLoop) -> Info {
    let Pat::Ident(i) = &*f.pat else { return None };
    let Expr::Range(r) = strip(&f.expr) else { return None };
    Some((i.ident.to_string(), text(strip(r.start.as_ref()?)), text(strip(r.end.as_ref()?))))
}

/// `let mut i = 0; while i < n`, with the statements in front of the loop.
pub fn of_while(w: &ExprWhile, before: &[Stmt]) -> Info {
    let Expr::Binary(b) = strip(&w.cond) else { return None };
    let (var, add) = match strip(&b.left) {
        Expr::Path(p) => (p.path.get_ident()?.to_string(), String::new()),
        Expr::Binary(x) if matches!(x.op, BinOp::Add(_)) => match (strip(&x.left), strip(&x.right)) { (Expr::Path(p), Expr::Lit(l)) => (p.path.get_ident()?.to_string(), format!(" - {}", text(l))), _ => return None },
        _ => return None,
    };
    let end = match b.op { BinOp::Lt(_) | BinOp::Ne(_) => format!("{}{}", text(strip(&b.right)), add), BinOp::Le(_) => format!("{} + 1{}", text(strip(&b.right)), add), _ => return None };
    let start = before.iter().rev().find_map(|s| match s {
        Stmt::Local(l) => { let Pat::Ident(i) = &l.pat else { return None }; if i.ident == var.as_str() { l.init.as_ref().map(|x| text(&x.expr)) } else { None } }
        _ => None,
    })?;
    Some((var, start, end))
}

/// How far the variable runs ahead of the one of the contract.
pub fn shift(old: &Info, new: &Info) -> Option<(String, String)> {
    let (o, n) = (old.as_ref()?, new.as_ref()?);
    let (a, b) = (o.1.parse::<i64>().ok(), n.1.parse::<i64>().ok());
    let to = match (a, b) { (Some(a), Some(b)) if a != b && o.2 != n.2 => format!("({} - {})", n.0, b - a), _ => n.0.clone() };
    if to == o.0 { None } else { Some((o.0.clone(), to)) }
}

pub struct Infos { pub v: Vec<Info>, before: Vec<Stmt> }
impl Infos { pub fn of(b: &Block) -> Vec<Info> { let mut i = Infos { v: vec![], before: vec![] }; i.visit_block_mut(&mut b.clone()); i.v } }
impl VisitMut for Infos {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let n = self.before.len();
        for s in b.stmts.iter_mut() { self.visit_stmt_mut(s); self.before.push(s.clone()); }
        self.before.truncate(n);
    }
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) { self.v.push(None); visit_mut::visit_expr_loop_mut(self, l); }
    fn visit_expr_while_mut(&mut self, w: &mut ExprWhile) { let i = of_while(w, &self.before); self.v.push(i); visit_mut::visit_expr_while_mut(self, w); }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) { self.v.push(of_for(f)); visit_mut::visit_expr_for_loop_mut(self, f); }
}

/// What a loop goes over: the slice, the first index, whether two neighbours at a time, and the kind of access.
struct Over { slice: Expr, from: Expr, to: Expr, check: Option<Expr>, kind: Kind }
#[derive(PartialEq)]
enum Kind { Each, Mut, Counted, Window, Pair }

fn int(e: &Expr) -> bool { matches!(e, Expr::Lit(ExprLit { lit: Lit::Int(_), .. })) }
fn simple(e: &Expr) -> bool { match e { Expr::Path(_) => true, Expr::Field(f) => simple(&f.base), _ => false } }

fn over(e: &Expr, refs: &[String]) -> Option<Over> {
    let e = strip(e);
    let zero: Expr = parse_quote!(0);
    let whole = |s: &Expr, kind| Some(Over { slice: s.clone(), from: zero.clone(), to: parse_quote!(#s.len()), check: None, kind });
    match e {
        Expr::Path(p) => if refs.contains(&p.path.get_ident()?.to_string()) { whole(e, Kind::Each) } else { None },
        Expr::Reference(r) => {
            let kind = if r.mutability.is_some() { Kind::Mut } else { Kind::Each };
            let s = strip(&r.expr);
            if simple(s) { return whole(s, kind); }
            part(s).map(|mut o| { o.kind = kind; o })
        }
        Expr::MethodCall(m) => {
            let r = strip(&m.receiver);
            let name = m.method.to_string();
            match (name.as_str(), m.args.len()) {
                ("iter", 0) | ("iter_mut", 0) => {
                    let kind = if name == "iter" { Kind::Each } else { Kind::Mut };
                    if simple(r) { return whole(r, kind); }
                    part(r).map(|mut o| { o.kind = kind; o })
                }
                ("skip", 1) if int(&m.args[0]) => { let o = over(r, refs)?; if o.kind != Kind::Each || o.check.is_some() || !int(&o.from) || text(&o.from) != "0" { return None; } Some(Over { from: m.args[0].clone(), ..o }) }
                ("enumerate", 0) => { let o = over(r, refs)?; if o.kind != Kind::Each || o.check.is_some() || text(&o.from) != "0" { return None; } Some(Over { kind: Kind::Counted, ..o }) }
                ("copied", 0) | ("cloned", 0) => None,
                ("take", 1) if simple(&m.args[0]) || int(&m.args[0]) => { let o = over(r, refs)?; if !matches!(o.kind, Kind::Each | Kind::Mut) || o.check.is_some() || text(&o.from) != "0" { return None; } let (n, to) = (&m.args[0], &o.to); Some(Over { to: parse_quote!((if #n < #to { #n } else { #to })), ..o }) }
                ("skip", 1) if simple(&m.args[0]) => { let o = over(r, refs)?; if !matches!(o.kind, Kind::Each | Kind::Mut) || o.check.is_some() || text(&o.from) != "0" { return None; } Some(Over { from: m.args[0].clone(), ..o }) }
                ("windows", 1) if text(&m.args[0]) == "2" && part(r).is_some() => {
                    let o = part(r)?;
                    let (a, b) = (&o.from, &o.to);
                    let to = parse_quote!((if #b - #a < 2 { #a } else { #b - 1 }));
                    Some(Over { to, kind: Kind::Window, ..o })
                }
                ("windows", 1) if simple(r) && text(&m.args[0]) == "2" => Some(Over { slice: r.clone(), from: zero, to: parse_quote!((if #r.len() < 2 { 0 } else { #r.len() - 1 })), check: None, kind: Kind::Window }),
                ("zip", 1) => {
                    let o = over(r, refs)?;
                    let p = over(&m.args[0], refs)?;
                    if o.kind != Kind::Each || p.kind != Kind::Each || text(&o.slice) != text(&p.slice) || text(&o.from) != "0" || text(&p.from) != "1" { return None; }
                    let s = &o.slice;
                    Some(Over { slice: s.clone(), from: zero, to: parse_quote!((if #s.len() < 2 { 0 } else { #s.len() - 1 })), check: p.check, kind: Kind::Pair })
                }
                _ => None,
            }
        }
        _ => None,
    }
}

/// `s[a..b]`, `s[a..]`
fn part(e: &Expr) -> Option<Over> {
    let Expr::Index(x) = e else { return None };
    let Expr::Range(r) = strip(&x.index) else { return None };
    if !matches!(r.limits, RangeLimits::HalfOpen(_)) { return None; }
    let s = strip(&x.expr);
    let ok = |e: &Expr| int(e) || simple(e);
    if !simple(s) { return None; }
    let from: Expr = match &r.start { None => parse_quote!(0), Some(a) if ok(a) => (**a).clone(), _ => return None };
    let to: Expr = match &r.end { None => parse_quote!(#s.len()), Some(a) if ok(a) => (**a).clone(), _ => return None };
    Some(Over { slice: s.clone(), check: Some(parse_quote!(#from > #to || #to > #s.len())), from, to, kind: Kind::Each })
}

/// Uses of a mutable item other than access to its fields.
struct Item { name: Ident, to: Expr, bad: bool }
impl VisitMut for Item {
    fn visit_expr_field_mut(&mut self, f: &mut ExprField) {
        if let Expr::Path(p) = &*f.base { if p.path.is_ident(&self.name) { *f.base = self.to.clone(); return; } }
        visit_mut::visit_expr_field_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.path.is_ident(&self.name) { self.bad = true; } }
    fn visit_macro_mut(&mut self, _: &mut Macro) { self.bad = true; }
}

/// Loops over slices where the contract speaks about an index.
pub struct Indexed<'a> { pub old: &'a [(String, Info)], pub refs: &'a [String], pub k: usize, pub fresh: usize, pub counts: &'a mut BTreeMap<&'static str, usize> }
impl<'a> Indexed<'a> {
    fn index(&mut self, f: &ExprForLoop, k: usize) -> Option<Expr> {
        if let Expr::Range(r) = strip(&f.expr) {
            // a..=b
            let (RangeLimits::Closed(_), Some(a), Some(b)) = (&r.limits, &r.start, &r.end) else { return None };
            let mut f = f.clone();
            *f.expr = parse_quote!(#a..#b + 1);
            *self.counts.entry("inclusive range").or_default() += 1;
            return Some(Expr::ForLoop(f));
        }
        let (kind, info) = self.old.get(k)?;
        if kind != "for" || info.is_none() { return None; }
        let o = over(&f.expr, self.refs)?;
        let v = Ident::new(&format!("vp_i{}", self.fresh), Span::call_site());
        self.fresh += 1;
        let (s, a, b) = (&o.slice, &o.from, &o.to);
        let mut v = v;
        let mut body = f.body.clone();
        let p = &f.pat;
        // the slice must not be hidden by a name bound in the loop
        let mut bound = crate::Names::default();
        bound.visit_block(&f.body);
        if o.kind != Kind::Each { bound.visit_pat(p); }
        if bound.v.iter().any(|n| text(s).split(' ').any(|w| w == n)) { return None; }
        match o.kind {
            Kind::Each => body.stmts.insert(0, parse_quote!(let #p = &#s[#v];)),
            Kind::Mut => {
                let Pat::Ident(i) = &**p else { return None };
                let mut it = Item { name: i.ident.clone(), to: parse_quote!(#s[#v]), bad: false };
                it.visit_block_mut(&mut body);
                if it.bad { return None; }
            }
            Kind::Counted => {
                let Pat::Tuple(t) = &**p else { return None };
                let (Some(Pat::Ident(i)), Some(x)) = (t.elems.get(0), t.elems.get(1)) else { return None };
                v = i.ident.clone();
                body.stmts.insert(0, parse_quote!(let #x = &#s[#v];));
            }
            Kind::Window => body.stmts.insert(0, parse_quote!(let #p = [#s[#v], #s[#v + 1]];)),
            Kind::Pair => {
                let Pat::Tuple(t) = &**p else { return None };
                let (x, y) = (t.elems.get(0)?, t.elems.get(1)?);
                body.stmts.insert(0, parse_quote!(let #y = &#s[#v + 1];));
                body.stmts.insert(0, parse_quote!(let #x = &#s[#v];));
            }
        }
        *self.counts.entry("loop over a slice made one over its index").or_default() += 1;
        let label = &f.label;
        let l: Expr = parse_quote!(#label for #v in #a..#b #body);
        Some(match &o.check { None => l, Some(c) => parse_quote!({ if #c { crate::prelude::vp_panic(); } #l }) })
    }
}
impl<'a> VisitMut for Indexed<'a> {
    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) { self.k += 1; visit_mut::visit_expr_loop_mut(self, l); }
    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) { self.k += 1; visit_mut::visit_expr_while_mut(self, l); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            let k = self.k;
            self.k += 1;
            visit_mut::visit_block_mut(self, &mut f.body);
            if let Some(n) = self.index(f, k) { *e = n; }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// The value of a block that is an `all` or `any`, in the branches too.
pub fn all_any(b: &mut Block, refs: &[String]) -> bool {
    if all_any_here(b, refs) { return true; }
    let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() else { return false };
    in_tail(e, refs)
}
fn in_tail(e: &mut Expr, refs: &[String]) -> bool {
    match e {
        Expr::Block(b) => all_any(&mut b.block, refs),
        Expr::If(i) => all_any(&mut i.then_branch, refs) || i.else_branch.as_mut().map_or(false, |x| in_tail(&mut x.1, refs)),
        Expr::Match(m) => m.arms.iter_mut().any(|a| {
            if let Expr::Block(_) | Expr::If(_) | Expr::Match(_) = &*a.body { return in_tail(&mut a.body, refs); }
            let x = &a.body;
            let mut b: Block = parse_quote!({ #x });
            if all_any_here(&mut b, refs) { *a.body = parse_quote!(#b); true } else { false }
        }),
        _ => false,
    }
}

/// `s.iter().all(|x| c)` as the value of a function whose contract has a loop -> the loop that defines it.
fn all_any_here(b: &mut Block, refs: &[String]) -> bool {
    let Some(Stmt::Expr(e, None)) = b.stmts.last() else { return false };
    let (not, e) = match strip(e) { Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (true, strip(&u.expr).clone()), e => (false, e.clone()) };
    let Expr::MethodCall(m) = &e else { return false };
    let all = match m.method.to_string().as_str() { "all" => true, "any" => false, _ => return false };
    let Some(Expr::Closure(c)) = m.args.first() else { return false };
    let Some(o) = over(&m.receiver, refs) else { return false };
    if o.kind == Kind::Mut || c.inputs.len() != 1 { return false; }
    let (p, body, r) = (&c.inputs[0], &c.body, &m.receiver);
    let p: Pat = match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
    let cond: Expr = if all { parse_quote!(!(#body)) } else { parse_quote!(#body) };
    let hit = !all != not;
    let (hit, end): (Expr, Expr) = if hit { (parse_quote!(true), parse_quote!(false)) } else { (parse_quote!(false), parse_quote!(true)) };
    b.stmts.pop();
    b.stmts.push(Stmt::Expr(parse_quote!(for #p in #r { if #cond { return #hit; } }), None));
    b.stmts.push(Stmt::Expr(end, None));
    true
}
