//! The mechanical, behaviour-preserving rewrites that bring the source into the verifier's dialect.
//!
//! matches!(e, p)                 -> match e { p => true, _ => false }
//! reference patterns             -> the pattern without `&`, its variables dereferenced at first use
//! for &pat in e                  -> for x in e { let pat = *x; .. }
//! e.map(|x| b), and_then, ..     -> the match that defines the combinator (literal closures, constructors)
//! debug_assert!, assert!, panic! -> a call that must be unreachable
//! b".."                          -> &[..]
//! vec![a, b]                     -> { let mut v = Vec::new(); v.push(a); v.push(b); v }
//! if let p = e && c { a }        -> if let p = e { if c { a } } (the else branch is repeated)
//! e == Some(literal), e == None  -> match e { Some(literal) => true, _ => false } (Ok, Err and != alike)
//! s.split('c')                   -> the wrapper of it that carries a contract
//! write!, format!, s += t        -> (functions that make text only) the calls on the formatter that define them
//! v.extend(r.map(|p| e));        -> for p in r { v.push(e); }
//! discriminant(self) == discriminant(x) -> match (self, x) { (E::A(..), E::A(..)) => true, .. _ => false }
//! (a, b) = (x, y);              -> { let (t, u) = (x, y); a = t; b = u; }
//! match e { p if g => a, _ => b } -> match e { p => if g { a } else { b }, _ => b } (small matches; Verus forgets
//!                                   what is known of a mutable reference on the path of a guard that fails)
use proc_macro2::{Ident, Span};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ctor { Option, Result }

#[derive(Default)]
pub struct Env {
    /// Outer constructors of the return types of the functions of the crate, by function name.
    pub ret: BTreeMap<String, Vec<Ctor>>,
    /// The same for the function being rewritten: local variables and parameters.
    pub locals: BTreeMap<String, Vec<Ctor>>,
    /// The same for the fields of the structs, by name.
    pub fields: BTreeMap<String, Vec<Ctor>>,
    /// The enums of the module, with a pattern for each variant, and the type the function belongs to.
    pub enums: BTreeMap<String, Vec<Pat>>,
    pub owner: String,
    pub counts: BTreeMap<&'static str, usize>,
    pub fresh: usize,
}

/// `Result<Option<T>, E>` -> [Result, Option]
pub fn ctors(t: &Type) -> Vec<Ctor> {
    if let Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            let c = match s.ident.to_string().as_str() { "Option" => Ctor::Option, "Result" => Ctor::Result, _ => return vec![] };
            let mut v = vec![c];
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if let Some(GenericArgument::Type(t)) = a.args.first() { v.extend(ctors(t)); }
            }
            return v;
        }
    }
    vec![]
}

pub fn std_ret(m: &str) -> Option<Vec<Ctor>> {
    use Ctor::*;
    Some(match m {
        "get" | "first" | "last" | "ok" | "err" | "pop" | "take" | "replace" | "next" | "strip_prefix" | "strip_suffix"
        | "split_once" | "chars_next" | "checked_add" | "checked_sub" | "checked_mul" | "position" | "find" | "nth" => vec![Option],
        "parse" | "try_into" | "try_from" | "from_str" => vec![Result],
        _ => return None,
    })
}

impl Env {
    pub fn bump(&mut self, k: &'static str) { *self.counts.entry(k).or_default() += 1; }

    pub fn ty(&self, e: &Expr) -> Vec<Ctor> {
        match e {
            Expr::Paren(p) => self.ty(&p.expr),
            Expr::Reference(p) => self.ty(&p.expr),
            Expr::Try(t) => { let mut v = self.ty(&t.expr); if !v.is_empty() { v.remove(0); } v }
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.locals.get(&i.to_string()).cloned()).unwrap_or_default(),
            Expr::Field(f) => if let Member::Named(i) = &f.member { self.fields.get(&i.to_string()).cloned().unwrap_or_default() } else { vec![] },
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    if last == "Some" { return vec![Ctor::Option]; }
                    if last == "Ok" || last == "Err" { return vec![Ctor::Result]; }
                    if p.path.segments.len() == 1 { if let Some(v) = self.locals.get(&format!("{}()", last)) { return v.clone(); } }
                    if let Some(v) = self.ret.get(&last) { return v.clone(); }
                    return std_ret(&last).unwrap_or_default();
                }
                vec![]
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "map" | "and_then" | "or_else" | "or" | "filter" | "cloned" | "copied" | "as_ref" | "map_err" | "and" | "inspect" => {
                        let v = self.ty(&m.receiver);
                        return v.into_iter().take(1).collect();
                    }
                    "ok_or" | "ok_or_else" => return vec![Ctor::Result],
                    "transpose" => {
                        let mut v = self.ty(&m.receiver);
                        if v.len() >= 2 { v.swap(0, 1); return v; }
                        return match v.first() { Some(Ctor::Option) => vec![Ctor::Result, Ctor::Option], Some(Ctor::Result) => vec![Ctor::Option, Ctor::Result], None => vec![] };
                    }
                    _ => {}
                }
                if let Some(v) = self.ret.get(&name) { if !v.is_empty() { return v.clone(); } }
                std_ret(&name).unwrap_or_default()
            }
            Expr::Match(m) => m.arms.iter().map(|a| self.ty(&a.body)).find(|v| !v.is_empty()).unwrap_or_default(),
            Expr::If(i) => self.block_ty(&i.then_branch),
            Expr::Block(b) => self.block_ty(&b.block),
            _ => vec![],
        }
    }
    fn block_ty(&self, b: &Block) -> Vec<Ctor> { if let Some(Stmt::Expr(e, None)) = b.stmts.last() { self.ty(e) } else { vec![] } }
}

pub fn pat_idents(p: &Pat, out: &mut Vec<Ident>) {
    struct V<'a>(&'a mut Vec<Ident>);
    impl<'ast, 'a> syn::visit::Visit<'ast> for V<'a> {
        fn visit_pat_ident(&mut self, i: &'ast PatIdent) {
            // constants and unit variants look like identifiers too: variables are lower case
            if i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0.push(i.ident.clone()); }
            if let Some((_, p)) = &i.subpat { self.visit_pat(p); }
        }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}

/// Drop `&` from patterns; report the variables that were bound below one.
struct Deref { names: Vec<Ident> }
impl VisitMut for Deref {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            let mut inner = (*r.pat).clone();
            if let Pat::Paren(pp) = &inner { inner = (*pp.pat).clone(); }
            pat_idents(&inner, &mut self.names);
            let mut sub = Deref { names: vec![] };
            sub.visit_pat_mut(&mut inner);
            *p = inner;
            return;
        }
        visit_mut::visit_pat_mut(self, p);
    }
}

fn has_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V { fn visit_pat_reference(&mut self, _: &'ast PatReference) { self.0 = true; } }
    let mut v = V(false);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}

struct Subst<'a> { names: &'a [Ident] }
impl<'a> VisitMut for Subst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() { if self.names.contains(i) { let i = i.clone(); *e = parse_quote!((*#i)); return; } }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn with_derefs(names: &[Ident], body: Expr) -> Expr {
    if names.is_empty() { return body; }
    let lets: Vec<Stmt> = names.iter().map(|n| parse_quote!(let #n = *#n;)).collect();
    if let Expr::Block(b) = &body {
        if b.label.is_none() && b.attrs.is_empty() { let mut b = b.clone(); for (k, l) in lets.into_iter().enumerate() { b.block.stmts.insert(k, l); } return Expr::Block(b); }
    }
    parse_quote!({ #(#lets)* #body })
}

fn contains_control(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true; }
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// What a combinator does with the value it hands to its closure.
fn apply(f: &Expr, arg: &Ident) -> Option<(Pat, Expr)> {
    match f {
        Expr::Closure(c) if c.inputs.len() <= 1 => {
            if contains_control(&c.body) { return None; }
            let pat = match c.inputs.first() { None => parse_pat("_"), Some(Pat::Type(t)) => (*t.pat).clone(), Some(p) => p.clone() };
            let mut b = (*c.body).clone();
            if let Expr::Block(_) = &b {} else { b = parse_quote!((#b)); }
            Some((pat, b))
        }
        Expr::Path(p) => {
            let last = p.path.segments.last().unwrap().ident.to_string();
            let whole = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if whole == "str::to_owned" || whole == "str::to_string" { return Some((parse_quote!(#arg), parse_quote!(String::from(#arg)))); }
            let ctor = last.chars().next().unwrap().is_uppercase();
            if ctor { Some((parse_quote!(#arg), parse_quote!(#p(#arg)))) } else { None }
        }
        _ => None,
    }
}
fn parse_pat(s: &str) -> Pat { use syn::parse::Parser; Pat::parse_single.parse_str(s).unwrap() }

impl VisitMut for Env {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Ident(i) = &l.pat { if let Some(init) = &l.init { let t = self.ty(&init.expr); self.locals.insert(i.ident.to_string(), t); } }
        if let Pat::Type(pt) = &l.pat { if let Pat::Ident(i) = &*pt.pat { let t = ctors(&pt.ty); self.locals.insert(i.ident.to_string(), t); } }
        if has_ref(&l.pat) && matches!(l.pat, Pat::Reference(_)) {
            // let &p = e;  ->  let p = *e;
            if let (Pat::Reference(r), Some(init)) = (&l.pat, &mut l.init) {
                let e = &init.expr; init.expr = parse_quote!(*(#e)); l.pat = (*r.pat).clone(); self.bump("reference pattern");
            }
        }
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if has_ref(&a.pat) {
            let mut d = Deref { names: vec![] };
            d.visit_pat_mut(&mut a.pat);
            self.bump("reference pattern");
            if let Some((_, g)) = &mut a.guard { Subst { names: &d.names }.visit_expr_mut(g); }
            let body = std::mem::replace(&mut *a.body, parse_quote!(()));
            *a.body = with_derefs(&d.names, body);
        }
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        if let Some(n) = unchain(i) { *i = n; self.bump("let chain"); }
        if let Expr::Let(l) = &mut *i.cond {
            if has_ref(&l.pat) {
                let mut d = Deref { names: vec![] };
                d.visit_pat_mut(&mut l.pat);
                self.bump("reference pattern");
                for (k, n) in d.names.iter().enumerate() { i.then_branch.stmts.insert(k, parse_quote!(let #n = *#n;)); }
            }
        }
        visit_mut::visit_expr_if_mut(self, i);
    }

    fn visit_expr_while_mut(&mut self, i: &mut ExprWhile) {
        if let Expr::Let(l) = &mut *i.cond {
            if has_ref(&l.pat) {
                let mut d = Deref { names: vec![] };
                d.visit_pat_mut(&mut l.pat);
                self.bump("reference pattern");
                for (k, n) in d.names.iter().enumerate() { i.body.stmts.insert(k, parse_quote!(let #n = *#n;)); }
            }
        }
        visit_mut::visit_expr_while_mut(self, i);
    }

    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        if let Pat::Reference(r) = &*f.pat {
            let v = Ident::new(&format!("vp_item{}", self.fresh), Span::call_site());
            self.fresh += 1;
            let p = (*r.pat).clone();
            f.body.stmts.insert(0, parse_quote!(let #p = *#v;));
            *f.pat = parse_quote!(#v);
            self.bump("reference pattern");
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }

    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        for p in c.inputs.iter_mut() {
            if let Pat::Reference(r) = p {
                if let Pat::Ident(i) = &*r.pat {
                    let i = i.ident.clone();
                    *p = parse_quote!(#i);
                    let b = std::mem::replace(&mut *c.body, parse_quote!(()));
                    *c.body = with_derefs(&[i], b);
                    self.bump("reference pattern");
                }
            }
        }
        visit_mut::visit_expr_closure_mut(self, c);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = s { if let Some(n) = extend(m) { *s = n; self.bump("extend"); } }
        if let Stmt::Expr(Expr::Assign(a), Some(_)) = s { if let Some(n) = self.destructure(a) { *s = n; self.bump("destructuring assignment"); } }
        if let Stmt::Macro(m) = s {
            let panics = m.mac.path.segments.last().map_or(false, |s| ["panic", "unreachable", "todo", "unimplemented"].contains(&s.ident.to_string().as_str()));
            let end = m.semi_token.is_none();
            if let Some(e) = self.macro_expr(&m.mac) {
                *s = if !panics { Stmt::Expr(e, Some(Default::default())) } else if end { Stmt::Expr(e, None) } else { Stmt::Expr(parse_quote!(crate::prelude::vp_panic()), Some(Default::default())) };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Match(m) = e { if let Some(n) = self.unguard(m) { *e = n; } }
        if let Expr::Macro(m) = e { if let Some(n) = self.macro_expr(&m.mac) { *e = n; } }
        if let Expr::Lit(l) = e {
            if let Lit::ByteStr(b) = &l.lit {
                let bytes = b.value();
                if bytes.iter().all(|x| *x < 128) {
                    let els: Vec<LitByte> = bytes.iter().map(|x| LitByte::new(*x, Span::call_site())).collect();
                    *e = parse_quote!((&[#(#els),*]));
                    self.bump("byte string literal");
                }
            }
        }
        if let Expr::Binary(b) = e { if let Some(n) = self.discriminants(b) { *e = n; self.bump("mem::discriminant"); } }
        if let Expr::Binary(b) = e {
            let eq = matches!(b.op, BinOp::Eq(_));
            if eq || matches!(b.op, BinOp::Ne(_)) {
                let found = match (literal_pat(&b.left), literal_pat(&b.right)) { (_, Some(p)) => Some((p, (*b.left).clone())), (Some(p), _) => Some((p, (*b.right).clone())), _ => None };
                if let Some((p, o)) = found {
                    let (yes, no): (Expr, Expr) = if eq { (parse_quote!(true), parse_quote!(false)) } else { (parse_quote!(false), parse_quote!(true)) };
                    *e = parse_quote!((match #o { #p => #yes, _ => #no }));
                    self.bump("comparison with a literal");
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // s.split('c').collect() into a vector
            if m.method == "collect" && m.args.is_empty() {
                if let Expr::MethodCall(s) = &*m.receiver {
                    if s.method == "split" && s.args.len() == 1 {
                        if let Some(Expr::Lit(ExprLit { lit: Lit::Char(c), .. })) = s.args.first() {
                            let (r, c) = ((*s.receiver).clone(), c.clone());
                            *e = parse_quote!(crate::prelude::vp_split_all(#r, #c));
                            self.bump("str::split wrapper");
                            visit_mut::visit_expr_mut(self, e);
                            return;
                        }
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // s.split('c') with a character: the wrapper that carries its contract
            if m.method == "split" && m.args.len() == 1 && m.turbofish.is_none() {
                if let Some(Expr::Lit(ExprLit { lit: Lit::Char(c), .. })) = m.args.first() {
                    let (r, c) = ((*m.receiver).clone(), c.clone());
                    *e = parse_quote!(crate::prelude::vp_split(#r, #c));
                    self.bump("str::split wrapper");
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.combinator(m) { self.bump("option/result combinator"); *e = n; visit_mut::visit_expr_mut(self, e); return; }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `if let P = e && c { A } else { B }` -> `if let P = e { if c { A } else { B } } else { B }`
fn unchain(i: &ExprIf) -> Option<ExprIf> {
    fn parts(e: &Expr, out: &mut Vec<Expr>) { if let Expr::Binary(b) = e { if matches!(b.op, BinOp::And(_)) { parts(&b.left, out); parts(&b.right, out); return; } } out.push(e.clone()); }
    let mut cs = vec![];
    parts(&i.cond, &mut cs);
    if cs.len() < 2 || !cs.iter().any(|c| matches!(c, Expr::Let(_))) { return None; }
    let mut merged: Vec<Expr> = vec![];
    for c in cs { match (merged.last_mut(), &c) { (Some(l), c) if !matches!(l, Expr::Let(_)) && !matches!(c, Expr::Let(_)) => { *l = parse_quote!(#l && #c); } _ => merged.push(c) } }
    if let Some((_, e)) = &i.else_branch { if loops_or_closures(e) { return None; } }
    let then = &i.then_branch;
    let mut inner: Option<ExprIf> = None;
    for c in merged.iter().rev() {
        let body: Block = match &inner { None => then.clone(), Some(n) => parse_quote!({ #n }) };
        inner = Some(match &i.else_branch { None => parse_quote!(if #c #body), Some((_, e)) => parse_quote!(if #c #body else #e) });
    }
    inner
}

/// `None`, `Some(literal)`, `Ok(literal)`, `Err(literal)` as a pattern.
fn literal_pat(e: &Expr) -> Option<Pat> {
    match e {
        Expr::Paren(p) => literal_pat(&p.expr),
        Expr::Path(p) if p.path.is_ident("None") => Some(parse_quote!(None)),
        Expr::Call(c) if c.args.len() == 1 => {
            let Expr::Path(p) = &*c.func else { return None };
            if !["Some", "Ok", "Err"].iter().any(|n| p.path.is_ident(n)) { return None; }
            match &c.args[0] {
                Expr::Lit(l) if matches!(l.lit, Lit::Str(_) | Lit::Char(_) | Lit::Byte(_) | Lit::Int(_) | Lit::Bool(_)) => { let l = l.clone(); Some(parse_quote!(#p(#l))) }
                _ => None,
            }
        }
        _ => None,
    }
}

fn loops_or_closures(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> syn::visit::Visit<'ast> for V {
        fn visit_expr_loop(&mut self, _: &'ast ExprLoop) { self.0 = true; }
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) { self.0 = true; }
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) { self.0 = true; }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// `v.extend(r.map(|p| e));` -> `for p in r { v.push(e); }`
fn extend(m: &ExprMethodCall) -> Option<Stmt> {
    if m.method != "extend" || m.args.len() != 1 { return None; }
    let mut v = &*m.receiver;
    while let Expr::Paren(p) = v { v = &p.expr; }
    if !matches!(v, Expr::Path(_) | Expr::Field(_)) { return None; }
    let Expr::MethodCall(i) = &m.args[0] else { return None };
    if i.method != "map" || i.args.len() != 1 { return None; }
    let Expr::Closure(c) = &i.args[0] else { return None };
    if c.inputs.len() != 1 || contains_control(&c.body) { return None; }
    let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
    let mut r = &*i.receiver;
    while let Expr::Paren(p) = r { r = &p.expr; }
    let b = &c.body;
    Some(Stmt::Expr(parse_quote!(for #p in #r { #v.push(#b); }), None))
}

fn discriminant_of(e: &Expr) -> Option<&Expr> {
    match e {
        Expr::Paren(p) => discriminant_of(&p.expr),
        Expr::Call(c) if c.args.len() == 1 => { let Expr::Path(p) = &*c.func else { return None }; if p.path.segments.last()?.ident == "discriminant" { Some(&c.args[0]) } else { None } }
        _ => None,
    }
}

impl Env {
    /// `discriminant(self) == discriminant(x)` in a method of an enum -> the match over its variants
    fn discriminants(&self, b: &ExprBinary) -> Option<Expr> {
        let eq = match b.op { BinOp::Eq(_) => true, BinOp::Ne(_) => false, _ => return None };
        let (l, r) = (discriminant_of(&b.left)?, discriminant_of(&b.right)?);
        let is_self = |e: &Expr| matches!(e, Expr::Path(p) if p.path.is_ident("self"));
        if !is_self(l) && !is_self(r) { return None; }
        let arms: Vec<Arm> = self.enums.get(&self.owner)?.iter().map(|p| parse_quote!((#p, #p) => #eq,)).collect();
        let no = !eq;
        Some(parse_quote!((match (#l, #r) { #(#arms)* _ => #no })))
    }

    /// `(a, b) = (x, y);` -> `{ let (t, u) = (x, y); a = t; b = u; }`
    fn destructure(&mut self, a: &ExprAssign) -> Option<Stmt> {
        let Expr::Tuple(t) = &*a.left else { return None };
        let mut pats: Vec<Pat> = vec![];
        let mut sets: Vec<Stmt> = vec![];
        for e in &t.elems {
            match e {
                Expr::Infer(_) => pats.push(parse_pat("_")),
                Expr::Path(_) | Expr::Unary(_) | Expr::Field(_) => {
                    let v = Ident::new(&format!("vp_t{}", self.fresh), Span::call_site());
                    self.fresh += 1;
                    pats.push(parse_quote!(#v));
                    sets.push(parse_quote!(#e = #v;));
                }
                _ => return None,
            }
        }
        let r = &a.right;
        Some(Stmt::Expr(parse_quote!({ let (#(#pats),*) = #r; #(#sets)* }), Some(Default::default())))
    }

    /// Turns the guards of a small match into conditionals.
    fn unguard(&mut self, m: &ExprMatch) -> Option<Expr> {
        if m.arms.len() > 6 || !m.arms.iter().any(|a| a.guard.is_some()) { return None; }
        let mut m = m.clone();
        let mut bind: Option<Stmt> = None;
        while let Some(k) = m.arms.iter().rposition(|a| a.guard.is_some()) {
            let rest: Vec<Arm> = m.arms[k + 1..].to_vec();
            if rest.is_empty() { return None; }
            let other: Expr = if rest.len() == 1 && matches!(rest[0].pat, Pat::Wild(_)) {
                if loops_or_closures(&rest[0].body) { return None; }
                (*rest[0].body).clone()
            } else {
                let others: Vec<Arm> = m.arms.iter().enumerate().filter(|(j, a)| *j != k && (*j > k || a.guard.is_none())).map(|(_, a)| a.clone()).collect();
                if others.iter().any(|a| loops_or_closures(&a.body)) { return None; }
                match &*m.expr {
                    Expr::Path(_) => {}
                    Expr::MethodCall(c) if ["peek", "next"].contains(&c.method.to_string().as_str()) && bind.is_none() => {
                        let v = Ident::new(&format!("vp_m{}", self.fresh), Span::call_site());
                        self.fresh += 1;
                        let e = &m.expr;
                        bind = Some(parse_quote!(let #v = #e;));
                        *m.expr = parse_quote!(#v);
                    }
                    _ => return None,
                }
                let e = &m.expr;
                parse_quote!(match #e { #(#others)* })
            };
            let (_, g) = m.arms[k].guard.take()?;
            let b = (*m.arms[k].body).clone();
            *m.arms[k].body = parse_quote!({ if #g { #b } else { #other } });
            m.arms[k].comma = Some(Default::default());
        }
        self.bump("match guard");
        Some(match bind { None => Expr::Match(m), Some(s) => parse_quote!({ #s #m }) })
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl parse::Parse for M {
                    fn parse(i: parse::ParseStream) -> Result<M> {
                        let e: Expr = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse::<Expr>()?) } else { None };
                        if i.peek(Token![,]) { i.parse::<Token![,]>()?; }
                        Ok(M(e, p, g))
                    }
                }
                let M(e, p, g) = m.parse_body().ok()?;
                self.bump("matches!");
                Some(match g { None => parse_quote!((match #e { #p => true, _ => false })), Some(g) => parse_quote!((match #e { #p if #g => true, _ => false })) })
            }
            "debug_assert" | "assert" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let c = args.first()?;
                self.bump("assertion macro");
                Some(parse_quote!(if !(#c) { crate::prelude::vp_panic(); }))
            }
            "debug_assert_eq" | "assert_eq" | "debug_assert_ne" | "assert_ne" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let (a, b) = (args.get(0)?, args.get(1)?);
                self.bump("assertion macro");
                if name.ends_with("_eq") { Some(parse_quote!(if !((#a) == (#b)) { crate::prelude::vp_panic(); })) }
                else { Some(parse_quote!(if (#a) == (#b) { crate::prelude::vp_panic(); })) }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => { self.bump("panic macro"); Some(parse_quote!(crate::prelude::vp_panic_at())) }
            "vec" => {
                let args = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                if args.is_empty() { return None; }
                let v = Ident::new(&format!("vp_v{}", self.fresh), Span::call_site());
                self.fresh += 1;
                self.bump("vec!");
                let pushes: Vec<Stmt> = args.iter().map(|a| parse_quote!(#v.push(#a);)).collect();
                Some(parse_quote!({ let mut #v = Vec::new(); #(#pushes)* #v }))
            }
            _ => None,
        }
    }

    fn combinator(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let t = self.ty(&m.receiver).first().copied();
        let r = &m.receiver;
        let x = Ident::new(&format!("vp_x{}", self.fresh), Span::call_site());
        self.fresh += 1;
        let one = |k: usize| m.args.iter().nth(k).cloned();
        Some(match (name.as_str(), t?, m.args.len()) {
            ("filter", Ctor::Option, 1) => {
                let (p, b) = apply(&one(0)?, &x)?;
                if has_ref(&p) { return None; }
                parse_quote!((match #r { Some(#x) => { let #p = &#x; if #b { Some(#x) } else { None } } None => None }))
            }
            ("flatten", Ctor::Option, 0) => parse_quote!((match #r { Some(#x) => #x, None => None })),
            ("map", Ctor::Option, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Some(#p) => Some(#b), None => None })) }
            ("map", Ctor::Result, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Ok(#p) => Ok(#b), Err(#x) => Err(#x) })) }
            ("map_err", Ctor::Result, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Ok(#x) => Ok(#x), Err(#p) => Err(#b) })) }
            ("and_then", Ctor::Option, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Some(#p) => #b, None => None })) }
            ("and_then", Ctor::Result, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Ok(#p) => #b, Err(#x) => Err(#x) })) }
            ("or_else", Ctor::Option, 1) => { let (_, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Some(#x) => Some(#x), None => #b })) }
            ("or_else", Ctor::Result, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Ok(#x) => Ok(#x), Err(#p) => #b })) }
            ("unwrap_or_else", Ctor::Option, 1) => { let (_, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Some(#x) => #x, None => #b })) }
            ("unwrap_or_else", Ctor::Result, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Ok(#x) => #x, Err(#p) => #b })) }
            ("ok_or_else", Ctor::Option, 1) => { let (_, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Some(#x) => Ok(#x), None => Err(#b) })) }
            ("map_or", Ctor::Option, 2) if matches!(one(0)?, Expr::Lit(_) | Expr::Path(_)) => { let d = one(0)?; let (p, b) = apply(&one(1)?, &x)?; parse_quote!((match #r { Some(#p) => #b, None => #d })) }
            ("map_or", Ctor::Result, 2) if matches!(one(0)?, Expr::Lit(_) | Expr::Path(_)) => { let d = one(0)?; let (p, b) = apply(&one(1)?, &x)?; parse_quote!((match #r { Ok(#p) => #b, Err(_) => #d })) }
            ("is_some_and", Ctor::Option, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Some(#p) => #b, None => false })) }
            ("is_ok_and", Ctor::Result, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Ok(#p) => #b, Err(_) => false })) }
            ("is_none_or", Ctor::Option, 1) => { let (p, b) = apply(&one(0)?, &x)?; parse_quote!((match #r { Some(#p) => #b, None => true })) }
            _ => return None,
        })
    }
}
