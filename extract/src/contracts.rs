//! The contract files: what is attached to which function, loop or closure.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct LoopSpec { pub spec: String, pub begin: String, pub end: String, pub after: String, pub before: String, pub iter: Option<String> }

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub path: String,
    pub ret: Option<String>,
    pub props: Vec<String>,
    pub spec: String,
    pub attrs: String,
    pub entry: String,
    pub tail: String,
    pub post: String,
    pub loops: BTreeMap<usize, LoopSpec>,
    pub closures: BTreeMap<usize, String>,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub module: String,
    pub items: String,
    pub drop: Vec<String>,
    pub fns: BTreeMap<String, FnContract>,
}

pub fn parse(text: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut cur: Option<FnContract> = None;
    // where the following lines go
    enum Sink { None, Items, Spec, Entry, Tail, Post, Loop(usize), Begin(usize), End(usize), After(usize), Before(usize), Closure(usize) }
    let mut sink = Sink::None;
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix('@') {
            let mut w = rest.split_whitespace();
            let key = w.next().unwrap_or("");
            let args: Vec<&str> = w.collect();
            let n = || args.first().and_then(|a| a.parse::<usize>().ok()).unwrap_or(0);
            match key {
                "module" => c.module = args[0].to_string(),
                "drop" => c.drop.extend(args.iter().map(|s| s.to_string())),
                "items" => { if let Some(f) = cur.take() { c.fns.insert(f.path.clone(), f); } sink = Sink::Items }
                "fn" => {
                    if let Some(f) = cur.take() { c.fns.insert(f.path.clone(), f); }
                    cur = Some(FnContract { path: args[0].to_string(), ..Default::default() });
                    sink = Sink::None;
                }
                "ret" => cur.as_mut().unwrap().ret = Some(args[0].to_string()),
                "props" => cur.as_mut().unwrap().props = args.iter().map(|s| s.to_string()).collect(),
                "attr" => { let f = cur.as_mut().unwrap(); f.attrs.push_str(rest[4..].trim()); f.attrs.push('\n'); }
                "spec" => sink = Sink::Spec,
                "entry" => sink = Sink::Entry,
                "tail" => sink = Sink::Tail,
                "post" => sink = Sink::Post,
                "loop" => sink = Sink::Loop(n()),
                "begin" => sink = Sink::Begin(n()),
                "end" => sink = Sink::End(n()),
                "after" => sink = Sink::After(n()),
                "before" => sink = Sink::Before(n()),
                "closure" => sink = Sink::Closure(n()),
                "iter" => { let i = n(); cur.as_mut().unwrap().loops.entry(i).or_default().iter = Some(args[1].to_string()) }
                _ => panic!("unknown contract directive @{}", rest),
            }
            continue;
        }
        let dst: &mut String = match &sink {
            Sink::None => continue,
            Sink::Items => &mut c.items,
            Sink::Spec => &mut cur.as_mut().unwrap().spec,
            Sink::Entry => &mut cur.as_mut().unwrap().entry,
            Sink::Tail => &mut cur.as_mut().unwrap().tail,
            Sink::Post => &mut cur.as_mut().unwrap().post,
            Sink::Loop(i) => &mut cur.as_mut().unwrap().loops.entry(*i).or_default().spec,
            Sink::Begin(i) => &mut cur.as_mut().unwrap().loops.entry(*i).or_default().begin,
            Sink::End(i) => &mut cur.as_mut().unwrap().loops.entry(*i).or_default().end,
            Sink::After(i) => &mut cur.as_mut().unwrap().loops.entry(*i).or_default().after,
            Sink::Before(i) => &mut cur.as_mut().unwrap().loops.entry(*i).or_default().before,
            Sink::Closure(i) => cur.as_mut().unwrap().closures.entry(*i).or_default(),
        };
        dst.push_str(line);
        dst.push('\n');
    }
    if let Some(f) = cur.take() { c.fns.insert(f.path.clone(), f); }
    c
}
