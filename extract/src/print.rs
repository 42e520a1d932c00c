//! Prints tokens as text, splicing contract text in at the marker macros.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Printer { pub out: String, pub texts: BTreeMap<usize, Splice> }

#[derive(Default, Clone)]
pub struct Splice { pub before_brace: String, pub inside: String }

impl Printer {
    pub fn line(&self) -> usize { self.out.bytes().filter(|b| *b == b'\n').count() + 1 }
    pub fn raw(&mut self, s: &str) { self.out.push_str(s); }
    pub fn nl(&mut self) { if !self.out.ends_with('\n') { self.out.push('\n'); } }

    fn marker(ts: &TokenStream) -> Option<usize> {
        // { vp_mark ! ( N ) ; ... }
        let mut it = ts.clone().into_iter();
        match it.next() { Some(TokenTree::Ident(i)) if i == "vp_mark" => {} _ => return None }
        it.next();
        match it.next() { Some(TokenTree::Group(g)) => g.stream().to_string().trim().parse().ok(), _ => None }
    }

    pub fn tokens(&mut self, ts: TokenStream) {
        let toks: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < toks.len() {
            match &toks[i] {
                TokenTree::Ident(id) if (id == "vp_mark" || id == "vp_text") && i + 2 < toks.len() => {
                    // marker statement itself: vp_mark!(N); is silent, vp_text!(N); prints its text
                    if let TokenTree::Group(g) = &toks[i + 2] {
                        let n: usize = g.stream().to_string().trim().parse().unwrap_or(usize::MAX);
                        if id == "vp_text" {
                            let t = self.texts.get(&n).map(|s| s.inside.clone()).unwrap_or_default();
                            self.nl(); self.raw(&t); self.nl();
                        }
                        i += 3;
                        if i < toks.len() { if let TokenTree::Punct(p) = &toks[i] { if p.as_char() == ';' { i += 1; } } }
                        continue;
                    }
                    self.word(&id.to_string());
                }
                TokenTree::Ident(id) if id == "vp_iter" && i + 2 < toks.len() => {
                    // vp_iter!(name, expr)  ->  name: expr
                    if let TokenTree::Group(g) = &toks[i + 2] {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        self.word(&inner[0].to_string());
                        self.raw(": ");
                        self.tokens(inner[2..].iter().cloned().collect());
                        i += 3;
                        continue;
                    }
                    self.word(&id.to_string());
                }
                TokenTree::Ident(id) => self.word(&id.to_string()),
                TokenTree::Literal(l) => self.word(&l.to_string()),
                TokenTree::Punct(p) => {
                    self.raw(&p.as_char().to_string());
                    if p.spacing() == Spacing::Alone {
                        if p.as_char() == ';' { self.nl() } else { self.raw(" ") }
                    }
                }
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Parenthesis => { self.raw("("); self.tokens(g.stream()); self.raw(") "); }
                    Delimiter::Bracket => { self.raw("["); self.tokens(g.stream()); self.raw("] "); }
                    Delimiter::None => { self.raw("("); self.tokens(g.stream()); self.raw(") "); }
                    Delimiter::Brace => {
                        let sp = Self::marker(&g.stream()).and_then(|n| self.texts.get(&n).cloned());
                        if let Some(s) = &sp { self.nl(); let t = s.before_brace.clone(); self.raw(&t); self.nl(); }
                        self.raw("{"); self.nl();
                        if let Some(s) = &sp { let t = s.inside.clone(); self.raw(&t); self.nl(); }
                        self.tokens(g.stream());
                        self.nl();
                        self.raw("}"); self.nl();
                    }
                },
            }
            i += 1;
        }
    }

    fn word(&mut self, s: &str) {
        self.raw(s);
        self.raw(" ");
    }
}
