//! Searches for an input on which the real parser breaks a property, and replays one.
//!
//!   vp_harness search PROP SEED COUNT SECONDS EXHAUSTIVE BULK DICT CURRENT
//!   vp_harness replay PROP FILE
//!
//! `search` prints one JSON line; it exits 0 when nothing was found and 1 when something was. `CURRENT`
//! names a file that holds the input being tried when the search is run one input at a time ("-" for not).

mod assume;
mod facets;
mod gen;
#[cfg(feature = "lexer")]
#[path = "/repo/src/lexer.rs"]
#[allow(dead_code)]
mod lexer;
mod reference;

use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// A smaller input that still breaks the property.
fn shrink(prop: &str, input: &str) -> String {
    let mut best = input.to_string();
    let until = Instant::now() + Duration::from_secs(10);
    for unit in ["\n", " ", ""] {
        loop {
            let parts: Vec<String> = if unit.is_empty() { best.chars().map(|c| c.to_string()).collect() } else { best.split_inclusive(unit).map(|s| s.to_string()).collect() };
            let mut improved = false;
            let mut chunk = (parts.len() / 2).max(1);
            'outer: while chunk >= 1 {
                let mut i = 0;
                while i < parts.len() {
                    if Instant::now() > until {
                        return best;
                    }
                    let c: String = parts[..i].iter().chain(parts[(i + chunk).min(parts.len())..].iter()).map(|s| s.as_str()).collect();
                    if c.len() < best.len() && facets::check(prop, &c).is_some() {
                        best = c;
                        improved = true;
                        break 'outer;
                    }
                    i += chunk;
                }
                if chunk == 1 {
                    break;
                }
                chunk /= 2;
            }
            if !improved {
                break;
            }
        }
    }
    best
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let handler = std::thread::Builder::new().stack_size(if a.get(7).map(String::as_str) == Some("2") { 2 << 20 } else { 16 << 20 }).spawn(move || run(&a)).unwrap();
    let code = handler.join().unwrap_or(2);
    std::process::exit(code);
}

fn run(a: &[String]) -> i32 {
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let input = std::fs::read_to_string(&a[3]).expect("input file");
            match facets::check(&a[2], &input) {
                None => {
                    println!("{{\"found\":false}}");
                    0
                }
                Some(d) => {
                    println!("{{\"found\":true,\"input\":{},\"detail\":{}}}", json(&input), json(&d));
                    1
                }
            }
        }
        Some("search") => search(a),
        Some("assume") => match assume::sample(a[2].parse().unwrap(), a[3].parse().unwrap()) {
            None => 0,
            Some(d) => {
                println!("{d}");
                1
            }
        },
        _ => {
            eprintln!("usage: search PROP SEED COUNT SECONDS EXHAUSTIVE BULK DICT CURRENT | replay PROP FILE");
            2
        }
    }
}

fn search(a: &[String]) -> i32 {
    let prop = a[2].clone();
    let seed: u64 = a[3].parse().unwrap();
    let count: usize = a[4].parse().unwrap();
    let secs: f64 = a[5].parse().unwrap();
    let small: usize = a[6].parse().unwrap();
    let bulk: usize = a[7].parse().unwrap();
    let mut dict = gen::Dict::default();
    let mut large: Vec<usize> = vec![];
    if let Ok(t) = std::fs::read_to_string(&a[8]) {
        for l in t.lines() {
            if let Some(w) = l.strip_prefix("w ") {
                if !w.is_empty() && w.len() < 40 {
                    dict.words.push(w.to_string());
                }
            } else if let Some(h) = l.strip_prefix("t ") {
                let bytes: Option<Vec<u8>> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
                if let Some(t) = bytes.and_then(|b| String::from_utf8(b).ok()) {
                    dict.texts.push(t);
                }
            } else if let Some(n) = l.strip_prefix("n ") {
                if let Ok(n) = n.parse::<usize>() {
                    dict.words.push(n.to_string());
                    dict.words.push(n.saturating_add(1).to_string());
                    dict.words.push(n.saturating_sub(1).to_string());
                    dict.words.push(format!("-{n}"));
                    if n > 3 && n <= 3000 {
                        dict.sizes.push(n);
                    }
                    if n > 3 && n <= 300_000 {
                        large.extend([n - 1, n, n + 1]);
                    }
                }
            }
        }
    }
    let current = if a[9] == "-" { None } else { Some(a[9].clone()) };

    // A watchdog: an input that takes this long does not terminate.
    let tick = Arc::new(AtomicU64::new(0));
    let now = Arc::new(Mutex::new(String::new()));
    {
        let (tick, now) = (tick.clone(), now.clone());
        std::thread::spawn(move || {
            let mut last = 0;
            loop {
                std::thread::sleep(Duration::from_secs(20));
                let t = tick.load(Ordering::SeqCst);
                if t == last && t != 0 {
                    let s = now.lock().unwrap().clone();
                    println!("{{\"found\":true,\"input\":{},\"detail\":\"no answer within 20 s\"}}", json(&s));
                    std::process::exit(1);
                }
                last = t;
            }
        });
    }

    let start = Instant::now();
    let mut distinct = HashSet::new();
    let mut accepted = 0usize;
    let mut evaluations = 0usize;
    let mut samples: Vec<String> = vec![];
    let mut found: Option<(String, String)> = None;
    let mtl = facets::is_mtl(&prop);
    let mut try_one = |s: String| -> bool {
        evaluations += 1;
        if let Some(f) = &current {
            let _ = std::fs::write(f, &s);
        }
        *now.lock().unwrap() = s.clone();
        tick.fetch_add(1, Ordering::SeqCst);
        if let Some(d) = facets::check(&prop, &s) {
            found = Some((s, d));
            return false;
        }
        if s.trim().len() > 3 && distinct.insert(hash(&s)) {
            let ok = if mtl { reference::mtl(&s).is_ok() } else { reference::obj(&s).is_ok() };
            if ok {
                accepted += 1;
            }
            if samples.len() < 3 && distinct.len() % 977 == 5 && s.len() < 400 {
                samples.push(s);
            }
        }
        true
    };
    let mut stopped = false;
    let (enumerated, depth) = gen::exhaustive(&prop, small, |s| {
        stopped = !try_one(s);
        !stopped
    });
    let mut bulked = 0;
    if bulk == 2 {
        bulked = gen::deep(300_000, |s| {
            stopped = !try_one(s);
            !stopped && start.elapsed().as_secs_f64() < secs
        });
    }
    if !stopped && bulk == 1 {
        let mut sizes: Vec<usize> = vec![255, 256, 257];
        sizes.extend(&large);
        sizes.extend([9, 17, 33, 65, 100, 101, 127, 128, 129, 513, 1000, 1001, 1025, 4097, 10001, 32768, 65535, 65536, 65537]);
        let mut seen = HashSet::new();
        sizes.retain(|n| seen.insert(*n) && (prop != "C20" || *n < 5000));
        bulked = gen::bulk(&prop, &sizes, |s| {
            stopped = !try_one(s);
            !stopped && start.elapsed().as_secs_f64() < secs
        });
    }
    let mut ran = 0;
    let mut g = gen::Gen::new(seed, &dict);
    while !stopped && ran < count && start.elapsed().as_secs_f64() < secs {
        ran += 1;
        let s = g.input(&prop);
        if !try_one(s) {
            break;
        }
    }
    tick.store(0, Ordering::SeqCst);
    let stats = format!(
        "\"evaluations\":{evaluations},\"enumerated\":{enumerated},\"large\":{bulked},\"depth\":{depth},\"distinct\":{},\"accepted\":{accepted},\"seconds\":{:.2},\"samples\":[{}]",
        distinct.len(),
        start.elapsed().as_secs_f64(),
        samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(",")
    );
    match found {
        None => {
            println!("{{\"found\":false,{stats}}}");
            0
        }
        Some((s, d)) => {
            // Shrinking tries other inputs, which may not terminate: print what there is first.
            println!("{{\"found\":true,\"input\":{},\"detail\":{},{stats}}}", json(&s), json(&facets::clip(&d)));
            let t = shrink(&prop, &s);
            let d = facets::check(&prop, &t).unwrap_or(d);
            println!("{{\"found\":true,\"input\":{},\"detail\":{},{stats}}}", json(&t), json(&facets::clip(&d)));
            1
        }
    }
}
