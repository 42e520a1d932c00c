//! Functions that a module takes from another file of the crate (`use crate::shared::f`) are read as if they stood in it.
use std::collections::BTreeSet;
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn leaves(t: &UseTree, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, bool)>) {
    match t {
        UseTree::Path(p) => { path.push(p.ident.to_string()); leaves(&p.tree, path, out); path.pop(); }
        UseTree::Name(n) => { let mut v = path.clone(); v.push(n.ident.to_string()); out.push((v, false)); }
        UseTree::Rename(n) => { let mut v = path.clone(); v.push(n.ident.to_string()); out.push((v, true)); }
        UseTree::Glob(_) => { let mut v = path.clone(); v.push("*".to_string()); out.push((v, false)); }
        UseTree::Group(g) => for x in &g.items { leaves(x, path, out); },
    }
}

fn name(i: &Item) -> Option<String> {
    Some(match i {
        Item::Fn(f) => f.sig.ident.to_string(),
        Item::Const(c) => c.ident.to_string(),
        Item::Struct(s) => s.ident.to_string(),
        Item::Enum(e) => e.ident.to_string(),
        Item::Type(t) => t.ident.to_string(),
        _ => return None,
    })
}

fn tests(a: &[Attribute]) -> bool { crate::is_cfg_test(a) }

/// The items of module `m` of the crate: a file of its own or a module written in lib.rs.
fn items(src: &str, lib: &File, m: &str) -> Option<Vec<Item>> {
    for it in &lib.items {
        if let Item::Mod(x) = it {
            if x.ident == m && !tests(&x.attrs) {
                if let Some((_, v)) = &x.content { return Some(v.clone()); }
                for f in [format!("{src}/{m}.rs"), format!("{src}/{m}/mod.rs")] {
                    if let Ok(t) = std::fs::read_to_string(&f) { return syn::parse_file(&t).ok().map(|f| f.items); }
                }
            }
        }
    }
    None
}

struct Here<'a> { from: &'a BTreeSet<String> }
impl<'a> VisitMut for Here<'a> {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let n = p.segments.len();
        let of = |p: &Path, i: usize| p.segments[i].ident.to_string();
        let cut = if n >= 3 && of(p, 0) == "crate" && self.from.contains(&of(p, 1)) { 2 }
            else if n >= 2 && of(p, 0) != "crate" && self.from.contains(&of(p, 0)) { 1 }
            else { return };
        p.segments = p.segments.iter().skip(cut).cloned().collect();
        p.leading_colon = None;
    }
}

pub fn absorb(src: &str, modules: &[&str], m: &str, f: &mut File) {
    let Ok(t) = std::fs::read_to_string(format!("{src}/lib.rs")) else { return };
    let Ok(lib) = syn::parse_file(&t) else { return };
    let own: BTreeSet<String> = lib.items.iter().filter_map(|i| if let Item::Mod(x) = i { Some(x.ident.to_string()) } else { None }).filter(|x| !modules.contains(&x.as_str())).collect();
    if own.is_empty() { return; }
    let mut from: BTreeSet<String> = BTreeSet::new();
    let mut kept = vec![];
    for it in std::mem::take(&mut f.items) {
        if let Item::Use(u) = &it {
            let mut out = vec![];
            leaves(&u.tree, &mut vec![], &mut out);
            let ours = |p: &Vec<String>| p.len() >= 2 && (p[0] == "crate" || p[0] == "super") && own.contains(&p[1]);
            if out.iter().all(|(p, renamed)| ours(p) && !renamed && p.len() <= 3) && !out.is_empty() && !tests(&u.attrs) {
                for (p, _) in &out { from.insert(p[1].clone()); }
                continue;
            }
        }
        kept.push(it);
    }
    f.items = kept;
    // paths written out in full
    struct Full<'a> { own: &'a BTreeSet<String>, from: &'a mut BTreeSet<String> }
    impl<'ast, 'a> syn::visit::Visit<'ast> for Full<'a> {
        fn visit_path(&mut self, p: &'ast Path) {
            if p.segments.len() >= 3 && p.segments[0].ident == "crate" { let x = p.segments[1].ident.to_string(); if self.own.contains(&x) { self.from.insert(x); } }
            syn::visit::visit_path(self, p);
        }
    }
    for it in &f.items { syn::visit::Visit::visit_item(&mut Full { own: &own, from: &mut from }, it); }
    // a name that both have could mean the wrong one
    let mut seen: BTreeSet<String> = f.items.iter().filter_map(name).collect();
    for x in from.clone() {
        let here: Vec<String> = items(src, &lib, &x).unwrap_or_default().iter().filter_map(name).collect();
        if here.iter().any(|n| seen.contains(n)) { crate::fail(&format!("{}.rs and {} have items of the same name", m, x)); }
        seen.extend(here);
    }
    if from.is_empty() { return; }
    let mut have: BTreeSet<String> = f.items.iter().filter_map(name).collect();
    let mut taken = vec![];
    for x in &from {
        let Some(v) = items(src, &lib, x) else { continue };
        for it in v {
            match &it {
                Item::Use(u) => {
                    let mut out = vec![];
                    leaves(&u.tree, &mut vec![], &mut out);
                    // what it takes from this module is here; the rest it may need
                    if out.iter().all(|(p, _)| p.len() >= 2 && ["crate", "super"].contains(&p[0].as_str()) && (p[1] == m || from.contains(&p[1]))) { continue; }
                    use quote::ToTokens;
                    let s = u.to_token_stream().to_string();
                    if !f.items.iter().chain(&taken).any(|i| if let Item::Use(w) = i { w.to_token_stream().to_string() == s } else { false }) { taken.push(it); }
                }
                Item::Mod(_) => {}
                Item::Impl(i) => if !tests(&i.attrs) { taken.push(it) },
                _ => if let Some(n) = name(&it) { let t = match &it { Item::Fn(g) => tests(&g.attrs), _ => false }; if !t && have.insert(n) { taken.push(it); } },
            }
        }
    }
    f.items.extend(taken);
    for it in &mut f.items { Here { from: &from }.visit_item_mut(it); }
}
