//! extract SRC_DIR CONTRACT_DIR OUT_RS OUT_JSON
//!
//! Builds the text the verifier checks from the current source: every function body comes from
//! SRC_DIR/{lexer,obj,mtl}.rs, the contracts from CONTRACT_DIR.
mod contracts;
mod display;
mod absorb;
mod flat;
mod inline;
mod loops;
mod print;
mod rewrite;

use contracts::*;
use print::*;
use proc_macro2::{Ident, Span, TokenStream};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;
use syn::Local as Local_;

const MODULES: [&str; 3] = ["lexer", "obj", "mtl"];

fn is_cfg_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("test") || (a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test")))
}

fn last_seg(t: &Type) -> String {
    match t { Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(), Type::Reference(r) => last_seg(&r.elem), _ => String::new() }
}

/// The calls with the number of loops around them.
#[derive(Default)]
struct Placed { v: Vec<String>, depth: usize }
impl<'ast> Visit<'ast> for Placed {
    fn visit_expr_loop(&mut self, i: &'ast ExprLoop) { self.depth += 1; visit::visit_expr_loop(self, i); self.depth -= 1; }
    fn visit_expr_while(&mut self, i: &'ast ExprWhile) { self.depth += 1; visit::visit_expr_while(self, i); self.depth -= 1; }
    fn visit_expr_for_loop(&mut self, i: &'ast ExprForLoop) { self.visit_expr(&i.expr); self.depth += 1; self.visit_block(&i.body); self.depth -= 1; }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) { self.v.push(format!("{}@{}", c.method, self.depth)); visit::visit_expr_method_call(self, c) }
}

struct LoopCount { loops: usize, closures: usize, kinds: Vec<&'static str> }
impl<'ast> Visit<'ast> for LoopCount {
    fn visit_expr_loop(&mut self, i: &'ast ExprLoop) { self.loops += 1; self.kinds.push("loop"); visit::visit_expr_loop(self, i) }
    fn visit_expr_while(&mut self, i: &'ast ExprWhile) { self.loops += 1; self.kinds.push("while"); visit::visit_expr_while(self, i) }
    fn visit_expr_for_loop(&mut self, i: &'ast ExprForLoop) { self.loops += 1; self.kinds.push("for"); visit::visit_expr_for_loop(self, i) }
    fn visit_expr_closure(&mut self, i: &'ast ExprClosure) { self.closures += 1; visit::visit_expr_closure(self, i) }
}

/// How each local is declared: `mut` and, where it is a literal, its first value.
#[derive(Default)]
struct Decls { v: BTreeMap<String, String> }
impl<'ast> Visit<'ast> for Decls {
    fn visit_local(&mut self, l: &'ast Local_) {
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            let e = match &*init.expr { Expr::Lit(x) => x.to_token_stream().to_string(), _ => "..".to_string() };
            self.v.insert(i.ident.to_string(), format!("{}{}", if i.mutability.is_some() { "mut " } else { "" }, e));
        }
        visit::visit_local(self, l)
    }
}

#[derive(Default)]
struct Names { v: Vec<String>, calls: Vec<String> }
impl<'ast> Visit<'ast> for Names {
    fn visit_pat_ident(&mut self, i: &'ast PatIdent) { let s = i.ident.to_string(); if !self.v.contains(&s) && !s.starts_with("vp_") { self.v.push(s); } visit::visit_pat_ident(self, i) }
    fn visit_expr_call(&mut self, c: &'ast ExprCall) {
        if let Expr::Path(p) = &*c.func { let s = p.path.segments.last().unwrap().ident.to_string(); if !s.starts_with("vp_") { self.calls.push(s); } }
        visit::visit_expr_call(self, c)
    }
    fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) { self.calls.push(c.method.to_string()); visit::visit_expr_method_call(self, c) }
}

/// The places a function is left early from: `return`, and `?` on an Option.
struct Returns<'e> { n: usize, env: &'e rewrite::Env, put: Option<(Ident, Option<Type>, LitInt, LitInt)> }
impl<'e> VisitMut for Returns<'e> {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Try(t) = e {
            if self.env.ty(&t.expr).first() == Some(&rewrite::Ctor::Option) {
                if self.put.is_some() { let x = &t.expr; *e = parse_quote!((match #x { Some(vp_some) => vp_some, None => return None })); }
                else { self.n += 1; }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e {
            self.n += 1;
            if let (Some((v, ty, tail, post)), Some(x)) = (&self.put, &r.expr) {
                let l: Stmt = match ty { Some(t) => parse_quote!(let #v: #t = #x;), None => parse_quote!(let #v = #x;) };
                *e = parse_quote!({ vp_text!(#tail); #l vp_text!(#post); return #v; });
            }
        }
    }
}

/// Puts marker macros at the loops and closures that carry contract text.
struct Mark<'a> { c: &'a FnContract, base: usize, loop_no: usize, closure_no: usize, next: usize, texts: &'a mut BTreeMap<usize, Splice>, rename: &'a dyn Fn(&str) -> String, counted: Option<(String, String)>, supplied: bool, old: &'a [loops::Info], subst: Vec<(String, String)>, low: Option<String> }
impl<'a> Mark<'a> {
    fn tx(&self, s: &str) -> String {
        let mut t = s.to_string();
        for (from, to) in &self.subst { t = if from.contains('.') { t.replace(from.as_str(), to) } else { rename_words(&t, &BTreeMap::from([(from.clone(), to.clone())])) }; }
        (self.rename)(&t)
    }
    fn id(&mut self, s: Splice) -> usize { let n = self.base + self.next; self.next += 1; self.texts.insert(n, s); n }
    fn block(&mut self, k: usize, b: &mut Block) {
        if let Some(l) = self.c.loops.get(&k).cloned() {
            let mut spec = self.tx(&l.spec);
            // an invariant written for `for i in 0..n`, where the bound and the measure are implied
            if !l.spec.contains("decreases") { if let Some((v, e)) = &self.counted { self.supplied = true; spec = format!("{}\n    decreases ({e}) - {v},\n", spec.replacen("invariant", &match &self.low { Some(l) => format!("invariant {l} <= {v}, {v} <= {e} || {v} == {l},"), None => format!("invariant {v} <= {e},") }, 1)); } }
            let n = self.id(Splice { before_brace: spec, inside: self.tx(&l.begin) });
            let lit = LitInt::new(&n.to_string(), Span::call_site());
            b.stmts.insert(0, parse_quote!(vp_mark!(#lit);));
            if !l.end.is_empty() {
                let n = self.id(Splice { before_brace: String::new(), inside: self.tx(&l.end) });
                let lit = LitInt::new(&n.to_string(), Span::call_site());
                // a counter that is advanced at the end of the body still has its value there in a `for`
                if let (Some((v, _)), Some(Stmt::Expr(Expr::Binary(x), _))) = (&self.counted, b.stmts.last()) {
                    if matches!(x.op, BinOp::AddAssign(_)) && x.left.to_token_stream().to_string() == *v { let at = b.stmts.len() - 1; b.stmts.insert(at, parse_quote!(vp_text!(#lit);)); return; }
                }
                // make sure what ends the block is a statement
                if let Some(Stmt::Expr(_, semi @ None)) = b.stmts.last_mut() { *semi = Some(Default::default()); }
                b.stmts.push(parse_quote!(vp_text!(#lit);));
            }
        }
    }
}
impl<'a> VisitMut for Mark<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let mut out = vec![];
        for mut s in stmts {
            let is_loop = matches!(&s, Stmt::Expr(Expr::Loop(_), _) | Stmt::Expr(Expr::While(_), _) | Stmt::Expr(Expr::ForLoop(_), _));
            let k = self.loop_no;
            if is_loop {
                if let Some(l) = self.c.loops.get(&k).cloned() { if !l.before.is_empty() {
                    let n = self.id(Splice { before_brace: String::new(), inside: self.tx(&l.before) });
                    let lit = LitInt::new(&n.to_string(), Span::call_site());
                    out.push(parse_quote!(vp_text!(#lit);));
                } }
            }
            let mark = self.subst.len();
            if let Stmt::Expr(Expr::While(w), _) = &s { self.low = loops::of_while(w, &out).map(|x| x.1); if let Some(x) = loops::shift(self.old.get(k).unwrap_or(&None), &loops::of_while(w, &out)) { self.subst.push(x); } else if let (Some(n), Some((v, st, _))) = (self.c.loops.get(&k).and_then(|l| l.iter.clone()), loops::of_while(w, &out)) { if st == "0" { self.subst.push((format!("{n}.index@"), format!("({v} as int)"))); } } }
            self.visit_stmt_mut(&mut s);
            self.subst.truncate(mark);
            out.push(s);
            if is_loop {
                if let Some(l) = self.c.loops.get(&k).cloned() {
                    if !l.after.is_empty() {
                        let n = self.id(Splice { before_brace: String::new(), inside: self.tx(&l.after) });
                        let lit = LitInt::new(&n.to_string(), Span::call_site());
                        out.push(parse_quote!(vp_text!(#lit);));
                    }
                }
            }
        }
        b.stmts = out;
    }
    fn visit_expr_loop_mut(&mut self, i: &mut ExprLoop) { let k = self.loop_no; self.loop_no += 1; visit_mut::visit_expr_loop_mut(self, i); self.block(k, &mut i.body); }
    fn visit_expr_while_mut(&mut self, i: &mut ExprWhile) {
        let k = self.loop_no; self.loop_no += 1;
        let low = self.low.take();
        visit_mut::visit_expr_while_mut(self, i);
        self.counted = counted(&i.cond);
        self.low = low;
        self.block(k, &mut i.body);
        self.counted = None;
    }
    fn visit_expr_for_loop_mut(&mut self, i: &mut ExprForLoop) {
        let k = self.loop_no; self.loop_no += 1;
        let info = loops::of_for(i);
        let mark = self.subst.len();
        if let Some(x) = loops::shift(self.old.get(k).unwrap_or(&None), &info) { self.subst.push(x); }
        let iter = self.c.loops.get(&k).and_then(|l| l.iter.clone());
        if let (Some(n), Some((v, st, _))) = (&iter, &info) { if st == "0" { self.subst.push((format!("{n}.index@"), format!("({v} as int)"))); } }
        visit_mut::visit_expr_for_loop_mut(self, i);
        if let (Some(n), None) = (iter, info) {
            let n = Ident::new(&n, Span::call_site());
            let e = (*i.expr).clone();
            *i.expr = parse_quote!(vp_iter!(#n, #e));
        }
        self.block(k, &mut i.body);
        self.subst.truncate(mark);
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let k = self.closure_no; self.closure_no += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        if let Some(t) = self.c.closures.get(&k).cloned() {
            let mut t = self.tx(&t);
            if let ReturnType::Type(_, ty) = &c.output { t = t.replace("$RET", &ty.to_token_stream().to_string()); }
            c.output = ReturnType::Default;
            let n = self.id(Splice { before_brace: t, inside: String::new() });
            let lit = LitInt::new(&n.to_string(), Span::call_site());
            let b = (*c.body).clone();
            *c.body = match b {
                Expr::Block(mut b) => { b.block.stmts.insert(0, parse_quote!(vp_mark!(#lit);)); Expr::Block(b) }
                b => parse_quote!({ vp_mark!(#lit); #b }),
            };
        }
    }
}

/// `i < e` and `i != e`: the counter and its bound.
fn counted(c: &Expr) -> Option<(String, String)> {
    match c {
        Expr::Paren(p) => counted(&p.expr),
        Expr::Binary(b) if matches!(b.op, BinOp::Le(_)) && matches!(&*b.left, Expr::Path(_)) => Some((b.left.to_token_stream().to_string(), format!("({} + 1)", b.right.to_token_stream()))),
        Expr::Binary(b) if matches!(b.op, BinOp::Lt(_) | BinOp::Ne(_)) && (matches!(&*b.left, Expr::Path(_)) || matches!(&*b.left, Expr::Binary(x) if matches!(x.op, BinOp::Add(_)) && matches!(&*x.left, Expr::Path(_)) && matches!(&*x.right, Expr::Lit(_)))) => Some((b.left.to_token_stream().to_string(), b.right.to_token_stream().to_string())),
        _ => None,
    }
}

/// Whether proof text speaks of one of these locals (a field, a call or a name bound there is none).
fn mentions(text: &str, names: &[String]) -> bool {
    let b = text.as_bytes();
    let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c >= 128;
    let bound = bound_in(text);
    let mut i = 0;
    while i < b.len() {
        if !word(b[i]) { i += 1; continue; }
        let start = i;
        while i < b.len() && word(b[i]) { i += 1; }
        let w = &text[start..i];
        if !names.iter().any(|n| n == w) || bound.iter().any(|n| n == w) { continue; }
        if start > 0 && b[start - 1] == b'.' && !(start > 1 && b[start - 2] == b'.') { continue; }
        let next = text[i..].trim_start();
        if next.starts_with('(') || (next.starts_with(':') && !next.starts_with("::")) { continue; }
        return true;
    }
    false
}

/// Leaves out the clauses of a loop specification that speak of certain locals.
fn drop_clauses(spec: &str, names: &[String]) -> String {
    let mut clauses: Vec<String> = vec![String::new()];
    let mut depth = 0i32;
    let mut chars = spec.chars().peekable();
    let mut string = false;
    while let Some(c) = chars.next() {
        if !string && c == '/' && chars.peek() == Some(&'/') {
            clauses.last_mut().unwrap().push(c);
            while let Some(c) = chars.next() { clauses.last_mut().unwrap().push(c); if c == '\n' { break; } }
            continue;
        }
        clauses.last_mut().unwrap().push(c);
        match c {
            '"' => string = !string,
            '\\' if string => { if let Some(c) = chars.next() { clauses.last_mut().unwrap().push(c); } }
            '(' | '[' | '{' if !string => depth += 1,
            ')' | ']' | '}' if !string => depth -= 1,
            ',' if !string && depth == 0 => {
                // a comment on the line of a clause belongs to it
                let mut rest = chars.clone();
                let mut add = String::new();
                while let Some(c) = rest.next() { add.push(c); if c == '\n' { break; } }
                if add.trim_start().starts_with("//") { clauses.last_mut().unwrap().push_str(&add); chars = rest; }
                clauses.push(String::new());
            }
            _ => {}
        }
    }
    let mut out = String::new();
    for c in clauses {
        let code: String = c.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
        if !mentions(&code, names) { out += &c; continue; }
        // a clause may follow the word that starts its section
        let t = code.trim_start();
        for k in ["invariant_except_break", "invariant", "ensures", "decreases"] { if t.starts_with(k) { if k != "decreases" { out += &format!("    {k}\n"); } break; } }
    }
    out
}

/// The names bound in contract text, by quantifiers, closures and `let`.
fn bound_in(text: &str) -> Vec<String> {
    let mut out = vec![];
    let code: String = text.lines().map(|l| l.split("//").next().unwrap_or("")).collect::<Vec<_>>().join("\n");
    for q in code.split('|') {
        // between two bars: `a: int, b: nat`
        for part in q.split(',') {
            if let Some((n, _)) = part.split_once(':') {
                let n = n.trim();
                if !n.is_empty() && n.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { out.push(n.to_string()); }
            }
        }
    }
    let words: Vec<&str> = code.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).collect();
    for w in words.windows(2) { if w[0] == "let" { out.push(if w[1] == "ghost" { String::new() } else { w[1].to_string() }); } }
    for w in words.windows(3) { if w[0] == "let" && w[1] == "ghost" { out.push(w[2].to_string()); } }
    out
}

/// The names called in contract text.
fn calls_in(text: &str) -> Vec<String> {
    let mut out = vec![];
    let b = text.as_bytes();
    for (k, _) in text.match_indices('(') {
        let mut j = k;
        while j > 0 && (b[j - 1].is_ascii_alphanumeric() || b[j - 1] == b'_') { j -= 1; }
        if j < k && !(j > 0 && b[j - 1] == b'.') { out.push(text[j..k].to_string()); }
    }
    out
}

/// Gives a local variable another name.
struct Local { from: String, to: String }
impl Local { fn set(&self, i: &mut Ident) { if *i == self.from { *i = Ident::new(&self.to, i.span()); } } }
impl VisitMut for Local {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.set(&mut p.ident); visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.qself.is_none() && p.path.segments.len() == 1 { self.set(&mut p.path.segments[0].ident); } }
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        // a function of the same name is called as before
        if !matches!(&*c.func, Expr::Path(_)) { self.visit_expr_mut(&mut c.func); }
        for a in c.args.iter_mut() { self.visit_expr_mut(a); }
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() { f.colon_token = Some(Default::default()); }
        self.visit_expr_mut(&mut f.expr);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        let t = m.tokens.to_string();
        if t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == self.from) {
            let map = BTreeMap::from([(self.from.clone(), self.to.clone())]);
            if let Ok(t) = rename_words(&t, &map).parse() { m.tokens = t; }
        }
    }
}

/// Replaces whole words of contract text.
fn rename_words(text: &str, map: &BTreeMap<String, String>) -> String {
    if map.is_empty() { return text.to_string(); }
    let mut out = String::new();
    let mut word = String::new();
    let mut prev = ' ';
    let flush = |word: &mut String, out: &mut String, prev: char| {
        if !word.is_empty() {
            if prev != '.' { if let Some(r) = map.get(word.as_str()) { out.push_str(r); word.clear(); return; } }
            out.push_str(word);
            word.clear();
        }
    };
    let mut before = ' ';
    for ch in text.chars() {
        if ch.is_alphanumeric() || ch == '_' { if word.is_empty() { before = prev; } word.push(ch); }
        else { flush(&mut word, &mut out, before); out.push(ch); }
        prev = ch;
    }
    flush(&mut word, &mut out, before);
    out
}

/// Renames a field in contract text (`.old` becomes `.new`), or drops the conjuncts that speak about a field that is gone.
fn rename_field(text: &str, old: &str, new: Option<&str>) -> String {
    let pat = format!(".{old}");
    let used = |l: &str| l.match_indices(&pat).any(|(k, _)| !l[k + pat.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_'));
    let mut out = String::new();
    for l in text.split_inclusive('\n') {
        if !used(l) { out.push_str(l); continue; }
        match new {
            None => if !l.trim_start().starts_with("&&&") { out.push_str(l); },
            Some(n) => {
                let mut at = 0;
                for (k, _) in l.match_indices(&pat) {
                    if l[k + pat.len()..].starts_with(|c: char| c.is_alphanumeric() || c == '_') { continue; }
                    out.push_str(&l[at..k + 1]);
                    out.push_str(n);
                    at = k + pat.len();
                }
                out.push_str(&l[at..]);
            }
        }
    }
    out
}

/// The private fields of a module's structs: struct, field, type.
fn private_fields(f: &File) -> Vec<(String, String, String)> {
    let mut out = vec![];
    for it in &f.items {
        if let Item::Struct(s) = it {
            if is_cfg_test(&s.attrs) { continue; }
            for x in &s.fields { if let (Some(i), Visibility::Inherited) = (&x.ident, &x.vis) { out.push((s.ident.to_string(), i.to_string(), x.ty.to_token_stream().to_string())); } }
        }
    }
    out
}

/// Private fields that have another name than when the contracts were written, or are gone.
fn fields_renamed(cx: &mut Ctx, m: &str, c: &mut Contracts, f: &File, old: &Value) {
    let Some(old) = old[m].as_array() else { return };
    let old: Vec<(String, String, String)> = old.iter().map(|x| { let g = |k: usize| x[k].as_str().unwrap_or("").to_string(); (g(0), g(1), g(2)) }).collect();
    let now = private_fields(f);
    let has = |l: &[(String, String, String)], s: &str, n: &str| l.iter().any(|x| x.0 == s && x.1 == n);
    let mut taken: Vec<String> = vec![];
    for (s, n, t) in &old {
        if has(&now, s, n) || !now.iter().any(|x| x.0 == *s) { continue; }
        let new = now.iter().find(|x| x.0 == *s && x.2 == *t && !has(&old, s, &x.1) && !taken.contains(&x.1)).map(|x| x.1.clone());
        if let Some(n) = &new { taken.push(n.clone()); }
        cx.renamed.push(format!("{m}::{s}.{n} is {}", new.clone().unwrap_or("gone".into())));
        let shared = f.items.iter().any(|it| if let Item::Struct(x) = it { x.ident != s.as_str() && x.fields.iter().any(|x| x.ident.as_ref().map_or(false, |i| i == n.as_str())) } else { false });
        let go = |text: &mut String, owner: &str| if !shared || owner == s { *text = rename_field(text, n, new.as_deref()); };
        // items: by the impl block they stand in
        let mut items = String::new();
        let (mut part, mut owner) = (String::new(), String::new());
        for l in c.items.split_inclusive('\n') {
            if !l.starts_with([' ', '}']) {
                let mut p = std::mem::take(&mut part); go(&mut p, &owner); items += &p;
                owner = l.strip_prefix("impl").map(|r| r.split("for ").last().unwrap_or(r).split(|ch: char| !(ch.is_alphanumeric() || ch == '_')).filter(|w| w.len() > 1).next().unwrap_or("").to_string()).unwrap_or_default();
            }
            part += l;
        }
        go(&mut part, &owner);
        items += &part;
        c.items = items;
        for (k, ct) in c.fns.iter_mut() {
            let owner = k.split("::").next().unwrap_or("").to_string();
            for x in [&mut ct.spec, &mut ct.entry, &mut ct.tail, &mut ct.post] { go(x, &owner); }
            for l in ct.loops.values_mut() { for x in [&mut l.spec, &mut l.begin, &mut l.end, &mut l.after, &mut l.before] { go(x, &owner); } }
            for x in ct.closures.values_mut() { go(x, &owner); }
        }
    }
}

struct SelfItem(Option<Type>);
impl VisitMut for SelfItem {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t { if p.to_token_stream().to_string().replace(' ', "") == "Self::Item" { if let Some(i) = &self.0 { *t = i.clone(); return; } } }
        visit_mut::visit_type_mut(self, t);
    }
}

/// `const X: &str` has the lifetime `'static`.
struct Consts;
impl VisitMut for Consts {
    fn visit_item_const_mut(&mut self, c: &mut ItemConst) { Static.visit_type_mut(&mut c.ty); }
}
struct Static;
impl VisitMut for Static {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) { if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); } visit_mut::visit_type_reference_mut(self, r); }
}

struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
}

struct Ctx {
    p: Printer,
    fns: Vec<Value>,
    dropped: Vec<String>,
    rewrites: BTreeMap<&'static str, usize>,
    baseline: Option<Value>,
    marks: usize,
    used: Vec<String>,
    fresh: usize,
    opaque: Vec<String>,
    helpers: BTreeMap<String, inline::Helper>,
    inlined: Vec<String>,
    skip: Vec<String>,
    renamed: Vec<String>,
    field_types: BTreeMap<String, Vec<rewrite::Ctor>>,
    enums: BTreeMap<String, Vec<Pat>>,
}

impl Ctx {
    fn params(sig: &Signature) -> Vec<String> {
        let mut n = Names::default();
        for a in &sig.inputs { if let FnArg::Typed(t) = a { n.visit_pat(&t.pat); } }
        n.v
    }

    fn emit_fn(&mut self, module: &str, owner: &str, vis: &Visibility, sig: &Signature, block: &Block, c: &Contracts, ret: &BTreeMap<String, Vec<rewrite::Ctor>>, trait_impl: bool) {
        let name = if owner.is_empty() { sig.ident.to_string() } else { format!("{}::{}", owner, sig.ident) };
        let full = format!("{}::{}", module, name);
        let contract = c.fns.get(&name).cloned();
        let has_contract = contract.is_some();
        let sig_text = sig_text(sig);
        let opaque = self.opaque.contains(&full);
        let mut inlined_block = block.clone();
        let mut done = vec![];
        for _ in 0..4 {
            let d = inline::inline(owner, sig, &mut inlined_block, &self.helpers, &mut self.fresh);
            if d.is_empty() { break; }
            done.extend(d);
        }
        self.inlined.extend(done.iter().cloned());
        // a new local that has the name of a function or of a bound variable of the contract
        if let Some(ct) = &contract {
            let mut all = format!("{} {} {} {}", ct.spec, ct.entry, ct.tail, ct.post);
            for l in ct.loops.values() { all += &format!(" {} {} {} {} {}", l.spec, l.begin, l.end, l.after, l.before); }
            let old: Vec<String> = self.baseline.as_ref().and_then(|b| b.get(&full)).and_then(|b| b["names"].as_array()).map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
            let mut locals = Names::default();
            locals.visit_block(&inlined_block);
            let params = Self::params(sig);
            for n in &locals.v {
                if old.contains(n) || params.contains(n) || !(calls_in(&all).contains(n) || bound_in(&all).contains(n)) { continue; }
                Local { from: n.clone(), to: format!("vp_l_{n}") }.visit_block_mut(&mut inlined_block);
                *self.rewrites.entry("local with the name of a specification").or_default() += 1;
            }
        }
        let block = &inlined_block;
        let mut env = rewrite::Env::default();
        env.ret = ret.clone();
        env.fields = self.field_types.clone();
        env.enums = self.enums.clone();
        env.owner = owner.to_string();
        env.fresh = self.fresh;
        // what generic closure parameters return
        for p in sig.generics.params.iter() {
            if let GenericParam::Type(t) = p { self.bounds(&t.ident.to_string(), t.bounds.iter(), sig, &mut env); }
        }
        if let Some(w) = &sig.generics.where_clause {
            for p in &w.predicates { if let WherePredicate::Type(t) = p { self.bounds(&last_seg(&t.bounded_ty), t.bounds.iter(), sig, &mut env); } }
        }
        for a in &sig.inputs { if let FnArg::Typed(t) = a { if let Pat::Ident(i) = &*t.pat { env.locals.insert(i.ident.to_string(), rewrite::ctors(&t.ty)); } } }
        let mut names = Names::default();
        names.v = Self::params(sig);
        names.visit_block(block);
        let mut placed = Placed::default();
        placed.visit_block(block);
        let mut placed = placed.v;
        placed.sort();
        let mut decls = Decls::default();
        decls.visit_block(block);
        let mut block = block.clone();
        Strip.visit_block_mut(&mut block);
        Consts.visit_block_mut(&mut block);
        env.visit_block_mut(&mut block);
        self.fresh = env.fresh;
        for (k, v) in &env.counts { *self.rewrites.entry(k).or_default() += v; }
        // loops in another form than when the contract was written
        let old_loops: Vec<(String, loops::Info)> = match self.baseline.as_ref().and_then(|b| b.get(&full)) {
            None => vec![],
            Some(b) => {
                let kinds: Vec<String> = b["loops"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
                let vars: Vec<loops::Info> = b["loop_vars"].as_array().map(|a| a.iter().map(|x| { let g = |k: usize| x[k].as_str().map(|s| s.to_string()); Some((g(0)?, g(1)?, g(2)?)) }).collect()).unwrap_or_default();
                kinds.into_iter().enumerate().map(|(k, n)| (n, vars.get(k).cloned().flatten())).collect()
            }
        };
        let old_infos: Vec<loops::Info> = old_loops.iter().map(|x| x.1.clone()).collect();
        if has_contract && !old_loops.is_empty() {
            let refs: Vec<String> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let (Pat::Ident(i), Type::Reference(r)) = (&*t.pat, &*t.ty) { if r.mutability.is_none() { return Some(i.ident.to_string()); } } None } else { None }).collect();
            let mut n = LoopCount { loops: 0, closures: 0, kinds: vec![] };
            n.visit_block(&block);
            if n.loops + 1 == old_loops.len() && loops::all_any(&mut block, &refs) { *self.rewrites.entry("all/any").or_default() += 1; }
            let mut x = loops::Indexed { old: &old_loops, refs: &refs, k: 0, fresh: self.fresh, counts: &mut self.rewrites };
            x.visit_block_mut(&mut block);
            self.fresh = x.fresh;
        }
        let loop_vars = loops::Infos::of(&block);
        let returns = { let mut r = Returns { n: 0, env: &env, put: None }; r.visit_block_mut(&mut block.clone()); r.n };
        let mut lc = LoopCount { loops: 0, closures: 0, kinds: vec![] };
        lc.visit_block(&block);

        // the contract speaks about parameters and locals by the names they had when it was written
        let mut map = BTreeMap::new();
        let mut lost: Vec<String> = vec![];
        let mut lost_names: Vec<String> = vec![];
        if let Some(ct) = &contract {
            if let Some(b) = self.baseline.as_ref().and_then(|b| b.get(&full)) {
                let old: Vec<String> = b["names"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
                let gone: Vec<&String> = old.iter().filter(|n| !names.v.contains(n)).collect();
                let new: Vec<&String> = names.v.iter().filter(|n| !old.contains(n)).collect();
                // a counter is no other name of a constant
                let decl = |g: &str| b["decls"][g].as_str().map(|s| s.to_string());
                let alike = gone.iter().zip(new.iter()).all(|(g, n)| match (decl(g), decls.v.get(*n)) { (Some(a), Some(b)) => a == *b, _ => true });
                if gone.len() == new.len() && alike { for (g, n) in gone.iter().zip(new.iter()) { map.insert(g.to_string(), n.to_string()); } }
                else {
                    let mut all = format!("{} {} {}", ct.spec, ct.entry, ct.tail);
                    for l in ct.loops.values() { all += &format!(" {} {} {} {} {}", l.spec, l.begin, l.end, l.after, l.before); }
                    let gone: Vec<&String> = gone.into_iter().filter(|g| !old_infos.iter().zip(&loop_vars).any(|(o, n)| n.is_some() && o.as_ref().map_or(false, |o| o.0 == **g))).collect();
                    for g in gone { if all.split(|ch: char| !(ch.is_alphanumeric() || ch == '_')).any(|w| w == g) { lost.push(format!("local `{}`", g)); lost_names.push(g.clone()); } }
                }
                let kinds: Vec<String> = b["loops"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
                if kinds != lc.kinds && (!ct.loops.is_empty() || !lc.kinds.is_empty()) { lost.push(format!("loops {:?} became {:?}", kinds, lc.kinds)); }
                if b["closures"].as_u64().unwrap_or(0) as usize != lc.closures { lost.push(format!("closures {} became {}", b["closures"], lc.closures)); }
            }
        }
        // what speaks of a local that is gone cannot be kept
        let mut contract = contract;
        if let Some(ct) = &mut contract {
            if !lost_names.is_empty() {
                for l in ct.loops.values_mut() {
                    l.spec = drop_clauses(&l.spec, &lost_names);
                    for x in [&mut l.begin, &mut l.end, &mut l.after, &mut l.before] { if mentions(x, &lost_names) { x.clear(); } }
                }
                for x in [&mut ct.entry, &mut ct.tail, &mut ct.post] { if mentions(x, &lost_names) { x.clear(); } }
            }
        }
        let ren = |s: &str| rename_words(s, &map);
        let mut texts = BTreeMap::new();
        let mut supplied = false;
        if let Some(ct) = &contract {
            let mut m = Mark { c: ct, base: self.marks, loop_no: 0, closure_no: 0, next: 0, texts: &mut texts, rename: &ren, counted: None, supplied: false, old: &old_infos, subst: vec![], low: None };
            m.visit_block_mut(&mut block);
            supplied = m.supplied || !lost_names.is_empty() || old_infos.iter().zip(&loop_vars).any(|(o, n)| n.is_some() && o != n);
            self.marks += m.next;
            // proof text in front of the value of the function is wanted where it is left early, too
            if returns > self.baseline.as_ref().and_then(|b| b.get(&full)).and_then(|b| b["returns"].as_u64()).unwrap_or(u64::MAX) as usize && !(ct.tail.is_empty() && ct.post.is_empty()) {
                texts.insert(self.marks, Splice { before_brace: String::new(), inside: ren(&ct.tail) });
                texts.insert(self.marks + 1, Splice { before_brace: String::new(), inside: ren(&ct.post) });
                let lit = |n: usize| LitInt::new(&n.to_string(), Span::call_site());
                let v = Ident::new(ct.ret.as_deref().unwrap_or("vp_r"), Span::call_site());
                let ty = match &sig.output { ReturnType::Type(_, t) if !t.to_token_stream().to_string().contains("impl") => Some((**t).clone()), _ => None };
                Returns { n: 0, env: &env, put: Some((v, ty, lit(self.marks), lit(self.marks + 1))) }.visit_block_mut(&mut block);
                self.marks += 2;
            }
            self.used.push(format!("{}::{}", module, name));
        }
        self.p.texts = texts;
        self.p.nl();
        if opaque { self.p.raw("#[verifier::external_body]\n"); }
        else if self.opaque.contains(&format!("may-diverge:{full}")) { self.p.raw("#[verifier::exec_allows_no_decreases_clause]\n"); }
        let start = self.p.line();
        if supplied && !opaque { self.p.raw("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"); }
        if let Some(ct) = &contract { let a = ct.attrs.clone(); self.p.raw(&a); }
        if !trait_impl { self.p.tokens(vis.to_token_stream()); }
        let (g, id, inputs) = (&sig.generics, &sig.ident, &sig.inputs);
        let (lt, gt_where) = (g.split_for_impl(), g.where_clause.clone());
        let _ = lt;
        let gparams = &g.params;
        let constness = sig.constness.to_token_stream();
        let unsafety = sig.unsafety.to_token_stream();
        let head: TokenStream = if gparams.is_empty() { quote!(#constness #unsafety fn #id ( #inputs )) } else { quote!(#constness #unsafety fn #id < #gparams > ( #inputs )) };
        self.p.tokens(head);
        if let ReturnType::Type(_, t) = &sig.output {
            let r = contract.as_ref().and_then(|c| c.ret.clone());
            self.p.raw("-> ");
            match r { Some(r) => { self.p.raw(&format!("({}: ", r)); self.p.tokens(t.to_token_stream()); self.p.raw(") "); } None => self.p.tokens(t.to_token_stream()) }
        }
        if let Some(w) = gt_where { self.p.tokens(w.to_token_stream()); }
        self.p.nl();
        let spec_line = self.p.line();
        if let Some(ct) = &contract { let s = ren(&ct.spec); self.p.raw(&s); }
        self.p.nl();
        let body_line = self.p.line();
        self.p.raw("{"); self.p.nl();
        if opaque { block.stmts = vec![Stmt::Expr(parse_quote!(unimplemented!()), None)]; }
        let contract = if opaque { None } else { contract };
        if !opaque && EmptyPat::within(&block) { self.p.raw("proof { reveal_strlit(\"\"); }\nbroadcast use crate::prelude::lemma_empty_str;\n"); }
        if let Some(ct) = &contract { let s = ren(&ct.entry); self.p.raw(&s); self.p.nl(); }
        StandIns.visit_block_mut(&mut block);
        let mut stmts = block.stmts.clone();
        let tail = if let Some(Stmt::Expr(_, None)) = stmts.last() { stmts.pop() } else { None };
        let rest = quote!(#(#stmts)*);
        self.p.tokens(rest);
        self.p.nl();
        if let Some(ct) = &contract {
            if !ct.tail.is_empty() { let s = ren(&ct.tail); self.p.raw(&s); self.p.nl(); }
        }
        let post = contract.as_ref().map(|c| ren(&c.post)).unwrap_or_default();
        match tail {
            Some(t) if !post.is_empty() => {
                // the value of the function, bound so that the proof can speak about it
                let r = contract.as_ref().and_then(|c| c.ret.clone()).unwrap_or("vp_r".to_string());
                match &sig.output {
                    ReturnType::Type(_, ty) if !ty.to_token_stream().to_string().contains("impl") => { self.p.raw(&format!("let {}: ", r)); self.p.tokens(ty.to_token_stream()); self.p.raw(" = "); }
                    _ => self.p.raw(&format!("let {} = ", r)),
                }
                self.p.tokens(t.to_token_stream());
                self.p.raw(";"); self.p.nl();
                self.p.raw(&post); self.p.nl();
                self.p.raw(&r);
            }
            Some(t) => self.p.tokens(t.to_token_stream()),
            None => { self.p.raw(&post); }
        }
        self.p.nl();
        self.p.raw("}"); self.p.nl();
        let end = self.p.line();
        self.fns.push(json!({
            "fn": full, "lines": [start, end], "spec_line": spec_line, "body_line": body_line,
            "contract": has_contract, "opaque": opaque, "inlined": done, "sig": sig_text, "props": contract.as_ref().map(|c| c.props.clone()).unwrap_or_default(),
            "names": names.v, "loops": lc.kinds, "closures": lc.closures, "calls": names.calls,
            "renamed": map, "lost": lost, "returns": returns, "loop_vars": loop_vars, "decls": decls.v, "placed": placed,
            "public": matches!(vis, Visibility::Public(_)),
        }));
    }

    fn bounds<'x>(&self, tyname: &str, bounds: impl Iterator<Item = &'x TypeParamBound>, sig: &Signature, env: &mut rewrite::Env) {
        for b in bounds {
            if let TypeParamBound::Trait(t) = b {
                if let Some(s) = t.path.segments.last() {
                    if let PathArguments::Parenthesized(p) = &s.arguments {
                        if let ReturnType::Type(_, r) = &p.output {
                            for a in &sig.inputs { if let FnArg::Typed(pt) = a { if last_seg(&pt.ty) == tyname { if let Pat::Ident(i) = &*pt.pat {
                                env.locals.insert(format!("{}()", i.ident), rewrite::ctors(r));
                            } } } }
                        }
                    }
                }
            }
        }
    }

    fn derives(&mut self, attrs: &[Attribute], name: &Ident, fields: Option<&Fields>) -> (String, String) {
        let mut keep = vec![];
        let mut extra = String::new();
        for a in attrs {
            if a.path().is_ident("derive") {
                if let Ok(l) = a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated) {
                    for p in l {
                        let n = p.segments.last().unwrap().ident.to_string();
                        match n.as_str() {
                            "Clone" | "Copy" | "Debug" | "PartialEq" | "Eq" => keep.push(n),
                            "Default" => if let Some(f) = fields {
                                // what rustc's derive(Default) generates
                                let body = match f {
                                    Fields::Named(n) => { let v: Vec<_> = n.named.iter().map(|x| { let i = &x.ident; quote!(#i: Default::default()) }).collect(); quote!(#name { #(#v),* }) }
                                    Fields::Unnamed(u) => { let v: Vec<_> = u.unnamed.iter().map(|_| quote!(Default::default())).collect(); quote!(#name ( #(#v),* )) }
                                    Fields::Unit => quote!(#name),
                                };
                                extra = quote!(impl Default for #name { fn default() -> #name { #body } }).to_string();
                            },
                            _ => {}
                        }
                    }
                }
            }
        }
        (if keep.is_empty() { String::new() } else { format!("#[derive({})]\n", keep.join(", ")) }, extra)
    }
}

fn impl_trait_name(i: &ItemImpl) -> Option<String> { i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string()) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (src, con, out_rs, out_json) = (&args[1], &args[2], &args[3], &args[4]);
    let whole: Option<Value> = std::fs::read_to_string(format!("{}/baseline.json", con)).ok().and_then(|s| serde_json::from_str(&s).ok());
    let baseline: Option<Value> = whole.as_ref().map(|b: &Value| b["fns"].clone());
    let opaque: Vec<String> = args[5..].to_vec();
    let mut files = BTreeMap::new();
    let mut ret: BTreeMap<String, Vec<rewrite::Ctor>> = BTreeMap::new();
    for m in MODULES {
        let text = match std::fs::read_to_string(format!("{}/{}.rs", src, m)) { Ok(t) => t, Err(e) => fail(&format!("cannot read {}.rs: {}", m, e)) };
        let mut f: File = match syn::parse_file(&text) { Ok(f) => f, Err(e) => fail(&format!("cannot parse {}.rs: {}", m, e)) };
        absorb::absorb(src, &MODULES, m, &mut f);
        for it in &f.items {
            let mut add = |s: &Signature| { if let ReturnType::Type(_, t) = &s.output { ret.insert(s.ident.to_string(), rewrite::ctors(t)); } };
            match it {
                Item::Fn(g) => add(&g.sig),
                Item::Impl(i) if !is_cfg_test(&i.attrs) => for x in &i.items { if let ImplItem::Fn(g) = x { add(&g.sig) } },
                _ => {}
            }
        }
        files.insert(m, f);
    }
    let mut field_types: BTreeMap<String, Vec<rewrite::Ctor>> = BTreeMap::new();
    for f in files.values() {
        for it in &f.items { if let Item::Struct(s) = it { for x in &s.fields { if let Some(i) = &x.ident { field_types.insert(i.to_string(), rewrite::ctors(&x.ty)); } } } }
    }
    let mut enums: BTreeMap<String, Vec<Pat>> = BTreeMap::new();
    for f in files.values() {
        for it in &f.items { if let Item::Enum(e) = it {
            let n = &e.ident;
            enums.insert(n.to_string(), e.variants.iter().map(|v| { let i = &v.ident; match v.fields { Fields::Unit => parse_quote!(#n::#i), Fields::Unnamed(_) => parse_quote!(#n::#i(..)), Fields::Named(_) => parse_quote!(#n::#i { .. }) } }).collect());
        } }
    }
    let mut text = display::Text::default();
    for f in files.values_mut() { text.file(f); }
    let mut cx = Ctx { p: Printer::default(), fns: vec![], dropped: vec![], rewrites: text.counts, baseline, marks: 0, used: vec![], fresh: 0, opaque, helpers: BTreeMap::new(), inlined: vec![], skip: vec![], renamed: vec![], field_types, enums };
    cx.p.raw("// Generated by /verif/extract from the current source. Do not edit.\n#![feature(sized_hierarchy)]\n#![allow(unused, dead_code, non_snake_case)]\n");
    let mut specs: Vec<_> = std::fs::read_dir(con).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    specs.sort();
    let mut spec_lines = vec![];
    for s in &specs {
        let a = cx.p.line();
        let t = std::fs::read_to_string(s).unwrap();
        cx.p.raw(&t);
        cx.p.nl();
        spec_lines.push(json!({"file": s.file_name().unwrap().to_string_lossy(), "lines": [a, cx.p.line()]}));
    }
    let mut unused: Vec<String> = vec![];
    for m in MODULES {
        let c = contracts::parse(&std::fs::read_to_string(format!("{}/{}.vc", con, m)).unwrap_or_default());
        let mut c = c;
        let f = &files[m];
        let here = functions(f);
        renames(&mut cx, m, &mut c, &here);
        if let Some(w) = &whole { fields_renamed(&mut cx, m, &mut c, f, &w["fields"]); }
        let c = c;
        cx.helpers = BTreeMap::new();
        if let Some(b) = &cx.baseline {
            for (owner, g, tr) in &here {
                let name = if owner.is_empty() { g.sig.ident.to_string() } else { format!("{}::{}", owner, g.sig.ident) };
                if *tr || c.fns.contains_key(&name) || b.get(format!("{}::{}", m, name)).is_some() { continue; }
                cx.helpers.insert(format!("{}::{}", owner, g.sig.ident), inline::Helper { owner: owner.clone(), sig: g.sig.clone(), block: (*g.block).clone() });
            }
        }
        // helpers that are left nowhere once they are expanded are not emitted
        let mut skip: Vec<String> = vec![];
        {
            let mut fresh = 0;
            let mut left: Vec<String> = vec![];
            let mut paths = Paths::default();
            for (owner, g, _) in &here {
                let own = cx.helpers.contains_key(&format!("{}::{}", owner, g.sig.ident));
                if own { continue; }
                let mut b = (*g.block).clone();
                for _ in 0..4 { if inline::inline(owner, &g.sig, &mut b, &cx.helpers, &mut fresh).is_empty() { break; } }
                left.extend(inline::calls(&b));
                paths.visit_block(&b);
            }
            left.extend(paths.v);
            let mut more = true;
            while more {
                more = false;
                for (k, h) in &cx.helpers {
                    let n = k.split("::").last().unwrap().to_string();
                    if left.contains(&n) { for x in inline::calls(&h.block) { if !left.contains(&x) { left.push(x); more = true; } } }
                }
            }
            for k in cx.helpers.keys() { let n = k.split("::").last().unwrap().to_string(); if !left.contains(&n) { skip.push(k.clone()); } }
        }
        cx.skip = skip;
        cx.p.raw(&format!("pub mod {} {{\n#[allow(unused_imports)] use vstd::prelude::*;\nuse vstd::string::*;\nuse vstd::utf8::*;\nuse crate::prelude::*;\nuse crate::lexspec::*;\nuse crate::parsespec::*;\n", m));
        if m == "obj" && con.len() > 0 { cx.p.raw("use crate::objspec::*;\nuse crate::soundspec::*;\n"); }
        if m == "mtl" { cx.p.raw("use crate::mtlspec::*;\n"); }
        cx.p.raw("verus! {\n");
        let items_start = cx.p.line();
        cx.p.raw(&c.items);
        cx.p.nl();
        spec_lines.push(json!({"file": format!("{}.vc", m), "lines": [items_start, cx.p.line()]}));
        for it in &f.items {
            match it {
                Item::Use(u) => { let mut u = u.clone(); u.attrs.clear(); let s = u.to_token_stream().to_string(); if s.contains("fmt") || s.contains("error") { continue; } cx.p.tokens(u.to_token_stream()); cx.p.nl(); }
                Item::Type(t) => { let mut t = t.clone(); t.attrs.clear(); t.vis = parse_quote!(pub); cx.p.tokens(t.to_token_stream()); cx.p.nl(); }
                Item::Const(t) => { let mut t = t.clone(); t.attrs.clear(); t.vis = parse_quote!(pub); Consts.visit_item_const_mut(&mut t); cx.p.tokens(t.to_token_stream()); cx.p.nl(); }
                Item::Struct(s) => {
                    if is_cfg_test(&s.attrs) { continue; }
                    if c.drop.contains(&s.ident.to_string()) { cx.dropped.push(format!("{}: struct {}", m, s.ident)); continue; }
                    let (d, extra) = cx.derives(&s.attrs, &s.ident, Some(&s.fields));
                    let mut s = s.clone(); s.attrs.clear(); for f in s.fields.iter_mut() { f.attrs.clear(); }
                    cx.p.raw(&d);
                    cx.p.tokens(s.to_token_stream()); cx.p.nl();
                    if !extra.is_empty() {
                        let im: ItemImpl = parse_str(&extra).unwrap();
                        emit_impl(&mut cx, m, &im, &c, &ret);
                    }
                }
                Item::Enum(s) => {
                    if is_cfg_test(&s.attrs) { continue; }
                    let (d, _) = cx.derives(&s.attrs, &s.ident, None);
                    let mut s = s.clone(); s.attrs.clear(); for v in s.variants.iter_mut() { v.attrs.clear(); for f in v.fields.iter_mut() { f.attrs.clear(); } }
                    cx.p.raw(&d);
                    cx.p.tokens(s.to_token_stream()); cx.p.nl();
                }
                Item::Fn(g) => {
                    if is_cfg_test(&g.attrs) { continue; }
                    if cx.skip.contains(&format!("::{}", g.sig.ident)) { continue; }
                    cx.emit_fn(m, "", &g.vis, &g.sig, &g.block, &c, &ret, false);
                }
                Item::Impl(i) => {
                    if is_cfg_test(&i.attrs) { continue; }
                    emit_impl(&mut cx, m, i, &c, &ret);
                }
                Item::Mod(x) if is_cfg_test(&x.attrs) => {}
                other => { let s = other.to_token_stream().to_string(); let s: String = s.chars().take(60).collect(); cx.dropped.push(format!("{}: {}", m, s)); }
            }
        }
        for k in c.fns.keys() { let n = format!("{}::{}", m, k); if !cx.used.contains(&n) { unused.push(n); } }
        cx.p.raw("} // verus!\n}\n");
    }
    cx.p.raw("fn main() {}\n");
    std::fs::write(out_rs, &cx.p.out).unwrap();
    let fields: BTreeMap<&str, _> = MODULES.iter().map(|m| (*m, private_fields(&files[m]))).collect();
    let report = json!({ "fields": fields, "fns": cx.fns, "dropped": cx.dropped, "rewrites": cx.rewrites, "unused_contracts": unused, "inlined": cx.inlined, "renamed_functions": cx.renamed, "specs": spec_lines });
    std::fs::write(out_json, serde_json::to_string_pretty(&report).unwrap()).unwrap();
}

fn emit_impl(cx: &mut Ctx, m: &str, i: &ItemImpl, c: &Contracts, ret: &BTreeMap<String, Vec<rewrite::Ctor>>) {
    let owner = last_seg(&i.self_ty);
    let tr = impl_trait_name(i);
    if c.drop.contains(&owner) { cx.dropped.push(format!("{}: impl {}", m, owner)); return; }
    if let Some(t) = &tr {
        let shown = t == "VpDisplay" && c.items.contains(&format!("fn text_{}(", owner));
        if ["VpDisplay", "Debug", "Error"].contains(&t.as_str()) && !shown { cx.dropped.push(format!("{}: impl {} for {}", m, t, owner)); return; }
    }
    let as_inherent = tr.as_deref() == Some("Iterator");
    let mut i = i.clone();
    i.attrs.clear();
    if as_inherent {
        let item = i.items.iter().find_map(|x| if let ImplItem::Type(t) = x { Some(t.ty.clone()) } else { None });
        i.items.retain(|x| matches!(x, ImplItem::Fn(_)));
        SelfItem(item).visit_item_impl_mut(&mut i);
        i.trait_ = None;
        *cx.rewrites.entry("Iterator impl made inherent").or_default() += 1;
    }
    let is_display = tr.as_deref() == Some("VpDisplay");
    let (g, st) = (&i.generics, &i.self_ty);
    let gp = &g.params;
    let gpt = if gp.is_empty() { quote!() } else { quote!(<#gp>) };
    let w = &g.where_clause;
    let head = match &i.trait_ { Some((_, p, _)) => quote!(impl #gpt #p for #st #w), None => quote!(impl #gpt #st #w) };
    cx.p.nl();
    cx.p.tokens(head);
    cx.p.raw("{\n");
    if is_display { cx.p.raw(&format!("open spec fn text(&self) -> Seq<char> {{ text_{0}(*self) }}\nopen spec fn showable(&self) -> bool {{ showable_{0}(*self) }}\n", owner)); }
    for x in &i.items {
        match x {
            ImplItem::Fn(g) => {
                if is_cfg_test(&g.attrs) { continue; }
                if i.trait_.is_none() && !as_inherent && cx.skip.contains(&format!("{}::{}", owner, g.sig.ident)) { continue; }
                let vis: Visibility = if as_inherent { parse_quote!(pub) } else { g.vis.clone() };
                cx.emit_fn(m, &owner, &vis, &g.sig, &g.block, c, ret, i.trait_.is_some());
            }
            ImplItem::Type(t) => { cx.p.tokens(t.to_token_stream()); cx.p.nl(); }
            ImplItem::Const(t) => { let mut t = t.clone(); t.attrs.clear(); cx.p.tokens(t.to_token_stream()); cx.p.nl(); }
            _ => {}
        }
    }
    cx.p.nl();
    cx.p.raw("}\n");
}

/// Paths used as values.
#[derive(Default)]
struct Paths { v: Vec<String> }
impl<'ast> Visit<'ast> for Paths {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) { if let Some(s) = p.path.segments.last() { self.v.push(s.ident.to_string()); } visit::visit_expr_path(self, p) }
}

struct FnAny { sig: Signature, block: Box<Block> }

/// Every function of a module outside its tests: owner, function, whether it implements a trait.
fn functions(f: &File) -> Vec<(String, FnAny, bool)> {
    let mut out = vec![];
    for it in &f.items {
        match it {
            Item::Fn(g) if !is_cfg_test(&g.attrs) => out.push((String::new(), FnAny { sig: g.sig.clone(), block: g.block.clone() }, false)),
            Item::Impl(i) if !is_cfg_test(&i.attrs) => {
                let tr = impl_trait_name(i);
                for x in &i.items { if let ImplItem::Fn(g) = x { if !is_cfg_test(&g.attrs) { out.push((last_seg(&i.self_ty), FnAny { sig: g.sig.clone(), block: Box::new(g.block.clone()) }, tr.is_some())); } } }
            }
            _ => {}
        }
    }
    out
}

fn sig_text(sig: &Signature) -> String {
    let mut s = sig.clone();
    s.ident = Ident::new("f", Span::call_site());
    for a in s.inputs.iter_mut() { if let FnArg::Typed(t) = a { *t.pat = parse_quote!(x); } }
    s.to_token_stream().to_string()
}

/// A function under contract that is gone, and a new one of the same owner and signature that does the same
/// calls, are the same function under another name.
fn renames(cx: &mut Ctx, m: &str, c: &mut Contracts, here: &[(String, FnAny, bool)]) {
    let Some(b) = cx.baseline.clone() else { return };
    let name = |o: &str, g: &FnAny| if o.is_empty() { g.sig.ident.to_string() } else { format!("{}::{}", o, g.sig.ident) };
    let gone: Vec<String> = c.fns.keys().filter(|k| !here.iter().any(|(o, g, _)| name(o, g) == **k)).cloned().collect();
    for k in gone {
        let old = &b[format!("{}::{}", m, k)];
        if old.is_null() { continue; }
        let owner = if k.contains("::") { k.split("::").next().unwrap() } else { "" };
        let calls: Vec<String> = old["calls"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        let mut best: Option<(f64, String)> = None;
        for (o, g, tr) in here {
            let n = name(o, g);
            if *tr || o != owner || c.fns.contains_key(&n) || b.get(format!("{}::{}", m, n)).is_some() { continue; }
            if sig_text(&g.sig) != old["sig"].as_str().unwrap_or("") { continue; }
            let mut now = inline::calls(&g.block);
            let total = (calls.len() + now.len()) as f64;
            let mut common = 0.0;
            for x in &calls { if let Some(p) = now.iter().position(|y| y == x) { now.remove(p); common += 2.0; } }
            let score = if total == 0.0 { 1.0 } else { common / total };
            if best.as_ref().map_or(true, |b| score > b.0) { best = Some((score, n)); }
        }
        if let Some((score, n)) = best { if score >= 0.6 {
            let mut ct = c.fns.remove(&k).unwrap();
            ct.path = n.clone();
            c.fns.insert(n.clone(), ct);
            cx.renamed.push(format!("{}::{} is {}", m, k, n));
            let o = b[format!("{}::{}", m, k)].clone();
            if let Some(Value::Object(x)) = cx.baseline.as_mut() { x.insert(format!("{}::{}", m, n), o); }
        } }
    }
}

fn fail(s: &str) -> ! { eprintln!("extract: {}", s); std::process::exit(3) }

/// Small functions of the standard library for which the prelude has one of its own, with a body that is verified.
struct StandIns;
impl VisitMut for StandIns {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        syn::visit_mut::visit_expr_method_call_mut(self, m);
        match (m.method.to_string().as_str(), m.args.len()) {
            ("transpose", 0) => m.method = Ident::new("vp_transpose", m.method.span()),
            ("replace", 1) => m.method = Ident::new("vp_replace", m.method.span()),
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        syn::visit_mut::visit_path_mut(self, p);
        if p.segments.len() == 2 && p.segments[1].ident == "transpose" { *p = parse_quote!(crate::prelude::VpTranspose::vp_transpose); }
    }
}

/// Whether the empty text is a pattern somewhere.
struct EmptyPat { yes: bool }
impl EmptyPat {
    fn within(b: &Block) -> bool { let mut v = EmptyPat { yes: false }; syn::visit::Visit::visit_block(&mut v, b); v.yes }
}
impl<'ast> syn::visit::Visit<'ast> for EmptyPat {
    fn visit_pat(&mut self, p: &'ast Pat) {
        if let Pat::Lit(l) = p { if let Lit::Str(s) = &l.lit { if s.value().is_empty() { self.yes = true; } } }
        syn::visit::visit_pat(self, p);
    }
}
