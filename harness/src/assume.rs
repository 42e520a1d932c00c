//! Samples the contracts that the proof assumes of the standard library (contracts/a_prelude.rs): not a proof of them,
//! but each is run against what the standard library does.

use crate::gen::Rng;

/// `split_on` of the contracts, written out.
fn split_on(s: &[char], c: char) -> Vec<String> {
    match s.iter().position(|x| *x == c) {
        None => vec![s.iter().collect()],
        Some(k) => {
            let mut out = vec![s[..k].iter().collect()];
            out.extend(split_on(&s[k + 1..], c));
            out
        }
    }
}

fn plain(w: &str) -> bool {
    !w.is_empty() && w.chars().all(|c| (0x21..0x7f).contains(&(c as u32)) && c != '#' && c != '\\')
}

fn float(r: &mut Rng) -> f64 {
    match r.below(4) {
        0 => f64::from_bits(r.next()),
        1 => r.below(100_000) as f64 / 64.0,
        2 => [0.0, -0.0, 1.0, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 1e21, 1e-7, 0.1][r.below(13)],
        _ => (r.next() as i64) as f64,
    }
}

fn int(r: &mut Rng) -> usize {
    match r.below(3) {
        0 => r.next() as usize >> r.below(64),
        1 => [0, 1, 9, 10, 99, 100, isize::MAX as usize, isize::MAX as usize + 1, usize::MAX][r.below(9)],
        _ => r.below(100_000),
    }
}

fn text(r: &mut Rng) -> String {
    let k = r.below(12);
    (0..k).map(|_| ['/', '/', '1', '2', 'a', '-', 'é', '日', '\u{1f600}', ' ', '\n'][r.below(11)]).collect()
}

/// Runs `n` rounds; the first contract that does not hold, if any.
pub fn sample(seed: u64, n: usize) -> Option<String> {
    let mut r = Rng::new(seed);
    for bad in ["\n", "\r", "", "/", "a", "1 ", " 1", "1\n"] {
        if bad.parse::<f64>().is_ok() || bad.parse::<isize>().is_ok() || bad.parse::<usize>().is_ok() {
            return Some(format!("{bad:?} is read as a number"));
        }
    }
    for _ in 0..n {
        let x = float(&mut r);
        let w = x.to_string();
        if !plain(&w) || !x.is_nan() && w.parse::<f64>().map(f64::to_bits) != Ok(x.to_bits()) {
            return Some(format!("axiom_shown_f64 on {w}"));
        }
        let k = int(&mut r);
        let w = k.to_string();
        if !plain(&w) || w.contains('/') || w.parse::<usize>() != Ok(k) || k <= isize::MAX as usize && w.parse::<isize>() != Ok(k as isize) {
            return Some(format!("axiom_shown_usize on {w}"));
        }
        let s = text(&mut r);
        let chars: Vec<char> = s.chars().collect();
        let mut it = s.split('/');
        for want in split_on(&chars, '/') {
            if it.next() != Some(want.as_str()) {
                return Some(format!("vp_split on {s:?}"));
            }
        }
        if it.next().is_some() || it.next().is_some() {
            return Some(format!("the end of vp_split on {s:?}"));
        }
        // The encoding of a text is well-formed, and a slice between character boundaries reads as those characters.
        let cut = r.below(chars.len() + 1);
        let at: usize = chars[..cut].iter().map(|c| c.len_utf8()).sum();
        let tail: String = chars[cut..].iter().collect();
        if std::str::from_utf8(&s.as_bytes()[at..]) != Ok(tail.as_str()) || unsafe { std::str::from_utf8_unchecked(&s.as_bytes()[at..]) } != tail {
            return Some(format!("from_utf8_unchecked on {s:?} from {at}"));
        }
        if String::from(s.as_str()).chars().ne(s.chars()) {
            return Some(format!("String::from on {s:?}"));
        }
        let mut joined = tail.clone();
        joined += &s;
        let mut pushed = tail.clone();
        pushed.push_str(&s);
        if joined != pushed || joined.chars().count() != chars.len() - cut + chars.len() || format!("{tail}{s}") != joined {
            return Some(format!("pushing {s:?} to {tail:?}"));
        }
        let o: Option<Result<usize, u8>> = [Some(Ok(k)), Some(Err(3)), None][r.below(3)];
        let want = match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) };
        if o.transpose() != want || want.transpose() != o {
            return Some("transpose".to_string());
        }
        let mut c = [Some(k), None][r.below(2)];
        let before = c;
        if c.replace(7) != before || c != Some(7) {
            return Some("Option::replace".to_string());
        }
    }
    None
}
