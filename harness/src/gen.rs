//! Inputs for the search: files built statement by statement from small pools, so that repetition
//! and boundary cases are common, plus mutations, raw text, and exhaustive enumeration of short files.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0xd1b54a32d192ed03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn chance(&mut self, one_in: usize) -> bool {
        self.below(one_in) == 0
    }
    pub fn pick<'a, T: ?Sized>(&mut self, v: &[&'a T]) -> &'a T {
        v[self.below(v.len())]
    }
}

/// Literals of the source under test, so that a special case in it can be hit.
#[derive(Clone, Default)]
pub struct Dict {
    pub words: Vec<String>,
    pub sizes: Vec<usize>,
    /// Whole literals that are new in the source, blanks included.
    pub texts: Vec<String>,
}

const ODD: [&str; 115] = [
    "１", "٣", "1f", "1d0", "1.0f", "1E3", "NaN", "INF", "+inf", "1e", "e5", "1e+5", "1e-5", "--1", "+-1", "-+1", "1-", "00", "007", "-00", "+0", "1,5", "1;2", "1/2", "50%", "1.5.2", "1:2", "-", "+", ".", "-.5", "1'", "0b1", "0o7", "1e308", "4.9e-324", "0.1", "16777217", "9007199254740993",
    "OFF", "Off", "none", "null", "(null)", "true", "ON", "V", "F", "\"a\"", "'a'", "[1]", "-o", "-s", "-mm", "x\u{a0}", "\u{3000}", "\u{200b}", "\u{1f600}", "a\u{301}",
    "0", "1", "2", "3", "-1", "-2", "-3", "+1", "-0", "1.0", "1.", ".5", "1e3", "1e400", "-1e-400", "nan", "inf", "-inf", "infinity", "0x1", "1_000",
    "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "18446744073709551616", "4294967296", "4294967297", "4294967298", "5000000000", "2147483648", "-2147483649", "65536", "65537", "65538", "256", "257", "258", "-9223372036854775807", "off", "on", "default",
    "é", "日本", "\u{85}x", "\u{a0}", "\u{2028}", "\u{feff}v", "\u{0}", "\u{c}", "\u{b}", "/", "//", "1/", "1//", "/1",
];
const TAGS: [&str; 24] = [
    "mtllib", "mtllib", "o", "g", "s", "usemtl", "v", "vt", "vn", "p", "l", "f", "fo", "newmtl", "Ka", "d", "illum", "Tr", "vp", "usemap", "call", "mg", "O", "x",
];
const NAMES: [&str; 40] = [
    "a", "b", "a", "c", "default", "off", "é", "日本語", "v", "o", "a/b", "material_1.mtl", "A", "B", "Ab", "aB", "a1", "a_1", "a-1", "a.b", "a.001", "a:b", "a,b", "a;b", "100%", "{}", "\"a\"", "Ä", "_", ".", "..", "../a.png", "C:/a.png", "-a", "0", "1", "g",
    "usemtl", "A.PNG", "a+b",
];

pub struct Gen<'d> {
    pub r: Rng,
    pub dict: &'d Dict,
    /// Few different values in this file, so that equal ones are common.
    few: bool,
}

struct Counts {
    v: usize,
    t: usize,
    n: usize,
    bv: usize,
    bt: usize,
    bn: usize,
}

impl<'d> Gen<'d> {
    pub fn new(seed: u64, dict: &'d Dict) -> Gen<'d> {
        Gen { r: Rng::new(seed), dict, few: false }
    }

    fn size(&mut self, usual: usize) -> usize {
        if self.r.chance(40) {
            if !self.dict.sizes.is_empty() && !self.r.chance(3) {
                let k = self.r.below(self.dict.sizes.len());
                return self.dict.sizes[k].saturating_add(self.r.below(3)).saturating_sub(1).min(3000);
            }
            return [8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 300][self.r.below(15)];
        }
        self.r.below(usual + 1)
    }

    fn word(&mut self) -> String {
        if !self.dict.words.is_empty() && self.r.chance(6) {
            let k = self.r.below(self.dict.words.len());
            return self.dict.words[k].clone();
        }
        if self.r.chance(10) {
            return self.wide();
        }
        self.r.pick(&ODD).to_string()
    }

    /// Digits in front of a number that do not change it, up to a size the source speaks about or past a usual one.
    fn padded(&mut self, sign: &str, digits: String) -> String {
        let to = if !self.dict.sizes.is_empty() && !self.r.chance(3) {
            let k = self.r.below(self.dict.sizes.len());
            (self.dict.sizes[k].saturating_add(self.r.below(4)).saturating_sub(1)).min(400)
        } else {
            [3, 5, 9, 10, 11, 16, 18, 19, 20, 21, 22, 24, 33, 40, 65, 129][self.r.below(16)]
        };
        format!("{sign}{}{digits}", "0".repeat(to.saturating_sub(digits.len())))
    }

    /// An integer near a multiple of a power of two, perhaps with leading zeros.
    fn wide(&mut self) -> String {
        let k = [8u32, 15, 16, 31, 32, 53, 63, 64, 64, 64, 65, 100][self.r.below(12)];
        let n = (1u128 << k) * [1u128, 1, 2, 3, 10, 100][self.r.below(6)] + self.r.below(4) as u128 - self.r.below(2) as u128;
        let sign = ["", "", "", "-", "+"][self.r.below(5)];
        if self.r.chance(3) { self.padded(sign, n.to_string()) } else { format!("{sign}{n}") }
    }

    fn text(&mut self) -> String {
        if self.dict.texts.is_empty() {
            return self.word();
        }
        let k = self.r.below(self.dict.texts.len());
        self.dict.texts[k].clone()
    }

    fn name(&mut self) -> String {
        if self.r.chance(if self.dict.texts.is_empty() { 400 } else { 25 }) {
            let t = self.text();
            return match self.r.below(6) {
                0 => format!("{t}a"),
                1 => format!("a{t}"),
                2 => format!("a{t}b"),
                3 => t + &self.text(),
                4 => format!("{t}a{}", self.text()),
                _ => t,
            };
        }
        if self.few && !self.r.chance(12) {
            return ["a", "a", "b"][self.r.below(3)].to_string();
        }
        match self.r.below(14) {
            0 => self.word(),
            1 => format!("n{}", self.r.below(1000)),
            2 => {
                let k = self.size(40);
                "x".repeat(k.max(1))
            }
            _ => self.r.pick(&NAMES).to_string(),
        }
    }

    fn digits(&mut self) -> String {
        let most = if self.r.chance(8) { 40 } else { 12 };
        let k = self.r.below(most);
        (0..k).map(|_| (b'0' + self.r.below(10) as u8) as char).collect()
    }

    fn float(&mut self) -> String {
        if self.few && !self.r.chance(12) {
            return ["0", "1", "1", "2"][self.r.below(4)].to_string();
        }
        match self.r.below(12) {
            0 => self.word(),
            1 => format!("{}", f64::from_bits(self.r.next())),
            2 => format!("{:e}", self.r.below(1000) as f64 / 7.0),
            3 => format!("-{}", self.r.below(100)),
            4 | 5 => format!("{}.{:03}", self.r.below(10), self.r.below(1000)),
            6 => match self.r.below(4) {
                0 => {
                    let (a, b) = (self.digits(), self.digits());
                    let sign = ["", "-", "+", "0"][self.r.below(4)];
                    format!("{sign}{a}.{b}")
                }
                1 => format!("{}", self.r.next() as f64 / 1e17),
                _ => "0".to_string(),
            },
            7 => ["nan", "NaN", "inf", "-inf", "infinity", "-0", "-0.0", "1e308", "1e-320"][self.r.below(9)].to_string(),
            _ => format!("{}", self.r.below(10)),
        }
    }

    fn index(&mut self, before: usize, here: usize) -> String {
        if self.r.chance(60) {
            return self.word();
        }
        if self.r.chance(40) {
            // just outside, or in another object
            return match self.r.below(6) {
                0 => "0".to_string(),
                1 => format!("{before}"),
                2 => format!("{}", before + here + 1),
                3 => format!("-{}", here + 1),
                4 => format!("{}", self.r.below(before + here + 2)),
                _ => format!("-{}", before + here),
            };
        }
        if here == 0 {
            return "1".to_string();
        }
        if self.r.chance(60) {
            let n = self.r.below(here);
            return if self.r.chance(2) { self.padded("", format!("{}", before + 1 + n)) } else { self.padded("-", format!("{}", 1 + n)) };
        }
        match self.r.below(4) {
            0 => format!("-{}", 1 + self.r.below(here)),
            1 if self.r.chance(4) => format!("+{}", before + 1 + self.r.below(here)),
            2 => format!("{}", [before + 1, before + here][self.r.below(2)]),
            _ => format!("{}", before + 1 + self.r.below(here)),
        }
    }

    fn vtn(&mut self, c: &Counts, form: usize) -> String {
        let form = if self.r.chance(80) { self.r.below(8) } else { form };
        let v = self.index(c.bv, c.v);
        let mut t = || self.index(c.bt, c.t);
        let t = t();
        let n = self.index(c.bn, c.n);
        match form {
            0 => v,
            1 => format!("{v}/{t}"),
            2 => format!("{v}//{n}"),
            3 => format!("{v}/{t}/{n}"),
            4 => format!("{v}/"),
            5 => format!("{v}//"),
            6 => format!("{v}/{t}/"),
            _ => format!("{v}/{t}/{n}/1"),
        }
    }

    fn form(&mut self, c: &Counts) -> usize {
        let mut ok = vec![0];
        if c.t > 0 {
            ok.push(1);
        }
        if c.n > 0 {
            ok.push(2);
        }
        if c.t > 0 && c.n > 0 {
            ok.push(3);
        }
        ok[self.r.below(ok.len())]
    }

    /// An OBJ file, as statements.
    fn obj_lines(&mut self, prop: &str) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        let mut c = Counts { v: 0, t: 0, n: 0, bv: 0, bt: 0, bn: 0 };
        for _ in 0..[0, 0, 0, 1, 1, 2][self.r.below(6)] {
            let k = self.size(3);
            let names: Vec<String> = (0..k).map(|_| self.name()).collect();
            out.push(format!("mtllib {}", names.join(" ")));
        }
        let objects = if matches!(prop, "C12" | "C06" | "C05") { 1 + self.r.below(4) } else { [1, 1, 1, 2, 3][self.r.below(5)] };
        for k in 0..objects {
            if k > 0 || self.r.chance(2) {
                let n = self.name();
                out.push(format!("o {n}"));
                c = Counts { v: 0, t: 0, n: 0, bv: c.bv + c.v, bt: c.bt + c.t, bn: c.bn + c.n };
            }
            let steps = self.size(14);
            for _ in 0..steps {
                if !out.is_empty() && self.r.chance(20) {
                    // An earlier statement again.
                    let j = self.r.below(out.len());
                    let l = out[j].clone();
                    match l.split_once(' ').map(|p| p.0) {
                        Some("o") | Some("mtllib") | None => {}
                        Some(t) => {
                            c.v += (t == "v") as usize;
                            c.t += (t == "vt") as usize;
                            c.n += (t == "vn") as usize;
                            out.push(l);
                        }
                    }
                }
                let what = match prop {
                    "C10" => self.r.pick(&["g", "g", "s", "s", "f", "f", "l", "p", "v", "usemtl"]),
                    "C11" => self.r.pick(&["usemtl", "usemtl", "f", "f", "p", "l", "g", "s", "v"]),
                    "C09" => self.r.pick(&["v", "v", "vt", "vt", "vn", "vn", "f"]),
                    _ => self.r.pick(&["v", "v", "v", "vt", "vn", "f", "f", "f", "l", "p", "g", "s", "usemtl"]),
                };
                match what {
                    "v" => {
                        let k = if self.r.chance(12) { self.r.below(6) } else { 3 + self.r.below(2) };
                        let mut reps = 1;
                        if c.v == 0 && self.r.chance(2) {
                            reps = 1 + self.size(4).min(400);
                        }
                        for _ in 0..reps {
                            let f: Vec<String> = (0..k).map(|_| self.float()).collect();
                            out.push(format!("v {}", f.join(" ")));
                            c.v += 1;
                        }
                    }
                    "vt" => {
                        let k = if self.r.chance(12) { self.r.below(5) } else { 1 + self.r.below(3) };
                        let f: Vec<String> = (0..k).map(|_| self.float()).collect();
                        out.push(format!("vt {}", f.join(" ")));
                        c.t += 1;
                    }
                    "vn" => {
                        let k = if self.r.chance(12) { self.r.below(5) } else { 3 };
                        let f: Vec<String> = (0..k).map(|_| self.float()).collect();
                        out.push(format!("vn {}", f.join(" ")));
                        c.n += 1;
                    }
                    "f" | "l" | "p" => {
                        if c.v == 0 && !self.r.chance(30) {
                            let k = 1 + self.r.below(4);
                            for _ in 0..k {
                                out.push("v 1 2 3".to_string());
                                c.v += 1;
                            }
                        }
                        let least = match what { "f" => 3, "l" => 2, _ => 1 };
                        let k = if self.r.chance(30) { self.r.below(4) } else { least + self.size(3) };
                        let form = if what == "p" { 0 } else { self.form(&c) };
                        let ix: Vec<String> = (0..k).map(|_| self.vtn(&c, form)).collect();
                        out.push(format!("{what} {}", ix.join(" ")));
                    }
                    "g" => {
                        let k = self.size(3);
                        let names: Vec<String> = (0..k).map(|_| self.name()).collect();
                        out.push(format!("g {}", names.join(" ")));
                    }
                    "s" => {
                        let t = match self.r.below(8) {
                            0 => "off".to_string(),
                            1 => self.word(),
                            _ => format!("{}", self.r.below(4)),
                        };
                        out.push(format!("s {t}"));
                    }
                    _ => {
                        let n = if self.r.chance(60) { String::new() } else { self.name() };
                        out.push(format!("usemtl {n}"));
                    }
                }
                if self.r.chance(120) {
                    let w = self.word();
                    out.push(w);
                }
            }
        }
        out
    }

    fn mtl_lines(&mut self) -> Vec<String> {
        let mut out = vec![];
        let materials = self.size(4);
        for _ in 0..materials {
            let n = if self.r.chance(60) { String::new() } else { self.name() };
            out.push(format!("newmtl {n}"));
            let steps = self.size(8);
            for _ in 0..steps {
                let tag = self.r.pick(&[
                    "Ka", "Kd", "Ks", "Ke", "d", "illum", "Ns", "Ni", "map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "map_Bump", "bump", "disp", "map_d", "decal",
                ]);
                let k = match tag {
                    "Ka" | "Kd" | "Ks" | "Ke" => 3,
                    _ => 1,
                };
                let k = if self.r.chance(60) { self.r.below(5) } else { k };
                if self.r.chance(5) {
                    // The arguments of an earlier statement again.
                    let j = self.r.below(out.len());
                    let l: &String = &out[j];
                    if let Some((t, args)) = l.split_once(' ') {
                        if t != "newmtl" && (matches!(t, "Ka" | "Kd" | "Ks" | "Ke") == (k == 3)) {
                            let l = format!("{tag} {args}");
                            out.push(l);
                            continue;
                        }
                    }
                }
                let args: Vec<String> = (0..k)
                    .map(|_| match tag {
                        "illum" if !self.r.chance(20) => format!("{}", self.r.below(3)),
                        "illum" if self.r.chance(2) => self.word(),
                        "illum" => format!("{}", self.r.below(12)),
                        t if t.starts_with("map_") || matches!(t, "bump" | "disp" | "decal") => self.name(),
                        _ => self.float(),
                    })
                    .collect();
                out.push(format!("{tag} {}", args.join(" ")));
                if self.r.chance(150) {
                    let w = self.word();
                    out.push(w);
                }
            }
        }
        out
    }

    /// Lay the statements out as text.
    fn layout(&mut self, lines: &[String]) -> String {
        let style = self.r.below(6);
        let nl = ["\n", "\n", "\n", "\r\n", "\r", "\n"][style];
        let mut s = String::new();
        if !self.dict.texts.is_empty() && self.r.chance(12) {
            let t = self.text();
            s += &t;
            s += ["\n", "", " ", "x\n"][self.r.below(4)];
        } else if self.r.chance(6) {
            s += ["\n", "# head\n", "  ", "\r\n", "#", "\t\n\n"][self.r.below(6)];
        }
        for (i, l) in lines.iter().enumerate() {
            if self.r.chance(12) {
                s += ["  ", "\t", "\n", "# x\n", "\n\n", "\\"][self.r.below(6)];
            }
            if self.r.chance(10) {
                let sep = ["  ", "\t", " \\", "\\", " \t "][self.r.below(5)];
                s += &l.replace(' ', sep);
            } else {
                s += l;
            }
            if self.r.chance(12) {
                s += [" ", " # c", "#c", "\t", " \\", " # f 1 2 3", "# \\", "# é\u{0}\"/*"][self.r.below(8)];
            }
            if !self.dict.texts.is_empty() && self.r.chance(40) {
                s += &self.text();
            }
            if i + 1 < lines.len() || !self.r.chance(4) {
                if self.r.chance(60) {
                    s += " ";
                } else if self.r.chance(25) {
                    s += ["\r\n", "\r", "\n\r", "\n\n", "\r\r\n"][self.r.below(5)];
                } else {
                    s += nl;
                }
            }
        }
        s
    }

    fn mutate(&mut self, s: String) -> String {
        let mut c: Vec<char> = s.chars().collect();
        for _ in 0..1 + self.r.below(3) {
            let i = self.r.below(c.len() + 1);
            match self.r.below(5) {
                0 if i < c.len() => {
                    c.remove(i);
                }
                1 if i < c.len() => {
                    let j = (i + 1 + self.r.below(8)).min(c.len());
                    c.drain(i..j);
                }
                2 => {
                    let w = if self.r.chance(2) { self.text() } else { self.word() };
                    let w = match self.r.below(4) {
                        0 => w,
                        1 => format!("{w}\n"),
                        _ => format!(" {w} "),
                    };
                    c.splice(i..i, w.chars().collect::<Vec<_>>());
                }
                3 => {
                    let x = [' ', '\n', '\r', '\t', '\\', '#', '/', '-', '0', '1', 'v', 'f', 'é', '.'][self.r.below(14)];
                    c.insert(i, x);
                }
                _ => c.truncate(i),
            }
        }
        c.into_iter().collect()
    }

    fn raw(&mut self) -> String {
        let k = self.size(24);
        let mut s = String::new();
        for _ in 0..k {
            match self.r.below(12) {
                0 => s += ["é", "日", "\u{1f600}", "\u{85}", "\u{a0}", "\u{0}", "\u{7f}", "\u{2028}"][self.r.below(8)],
                1 => s += &if self.r.chance(3) { self.text() } else { self.word() },
                2 => s.push((33 + self.r.below(94) as u8) as char),
                _ => s.push([' ', '\n', '\r', '\t', '\\', '#', 'a', 'b', '\n', '\r', '/', '1'][self.r.below(12)]),
            }
        }
        s
    }

    pub fn input(&mut self, prop: &str) -> String {
        let mtl = match prop {
            "C14" | "C15" | "C16" => true,
            "C01" | "C02" | "C17" | "C20" => self.r.chance(3),
            _ => false,
        };
        self.few = self.r.chance(3);
        let lexical = matches!(prop, "C02" | "C03" | "C04" | "C20");
        if self.r.chance(if lexical { 2 } else { 25 }) {
            let raw = self.raw();
            return if self.r.chance(3) { format!("mtllib {raw}") } else { raw };
        }
        let mut lines = if mtl { self.mtl_lines() } else { self.obj_lines(prop) };
        if !lines.is_empty() && self.r.chance(if self.dict.sizes.is_empty() { 150 } else { 20 }) {
            // Some statements over and over, with names of their own.
            let i = self.r.below(lines.len());
            let block: Vec<String> = lines[i..(i + 1 + self.r.below(3)).min(lines.len())].to_vec();
            let mut n = [5, 17, 40, 130, 260, 300][self.r.below(6)];
            if !self.dict.sizes.is_empty() && self.r.chance(2) {
                let k = self.r.below(self.dict.sizes.len());
                n = self.dict.sizes[k].min(3000) + self.r.below(2);
            }
            let mut more = vec![];
            for k in 0..n {
                for l in &block {
                    let named = ["g ", "usemtl ", "o ", "newmtl ", "mtllib "].iter().any(|t| l.starts_with(t));
                    more.push(if named { format!("{l}{k}") } else { l.clone() });
                }
            }
            if self.r.chance(3) {
                if self.r.chance(2) {
                    more.push(String::new());
                }
                let t = self.r.pick(&TAGS);
                let a = if self.r.chance(3) { self.word() } else { self.name() };
                more.push(format!("{t} {a}"));
            }
            lines.splice(i..i, more);
        } else if !lines.is_empty() && self.r.chance(60) {
            // A statement where it may not belong.
            let i = self.r.below(lines.len() + 1);
            let t = self.r.pick(&TAGS);
            let a = if self.r.chance(3) { self.word() } else { self.name() };
            lines.insert(i, format!("{t} {a}"));
        }
        let s = self.layout(&lines);
        let errors = matches!(prop, "C01" | "C13" | "C16" | "C17");
        if self.r.chance(if errors { 2 } else { 6 }) { self.mutate(s) } else { s }
    }
}

/// Every short file over a small alphabet of statements, or every short text over a few characters.
pub fn exhaustive(prop: &str, budget: usize, mut f: impl FnMut(String) -> bool) -> (usize, usize) {
    let texts = [" ", "\n", "\r", "#", "a", "é", "\\", "\t"];
    let objs = [
        "v 1 2 3\n", "vt 1\n", "vn 1 2 3\n", "p 1\n", "l 1 2\n", "f 1 2 3\n", "f -1 -1 -1\n", "f 1/1 1/1 1/1 1/1\n", "g a\n", "g\n", "s 1\n", "s off\n", "usemtl a\n", "usemtl b\n",
        "o x\n", "\n", "mtllib m\n",
    ];
    let mtls = ["newmtl a\n", "newmtl b\n", "Ka 1 2 3\n", "Kd 1 2 3\n", "Ks 1 2 3\n", "Ke 1 2 3\n", "d .5\n", "illum 0\n", "illum 1\n", "Ns 2\n", "Ni 3\n", "map_Ka x\n", "map_Kd y\n", "map_Ks z\n", "map_Ke w\n", "map_Ns q\n", "bump r\n", "map_Bump s\n", "disp t\n", "map_d u\n", "decal k\n", "\n"];
    let alphabet: &[&str] = match prop {
        "C02" | "C03" | "C04" => &texts,
        "C14" | "C15" | "C16" => &mtls,
        _ => &objs,
    };
    let prefix: &[&str] = match prop {
        "C02" | "C03" | "C04" | "C13" | "C14" | "C15" | "C16" | "C01" => &[""],
        _ => &["", "v 1 2 3\nv 4 5 6\nv 7 8 9\nvt 0\nvn 0 0 1\n"],
    };
    let mut done = 0;
    let mut depth = 0;
    for len in 0.. {
        let total = alphabet.len().checked_pow(len as u32).unwrap_or(usize::MAX).saturating_mul(prefix.len());
        if done + total > budget {
            break;
        }
        for p in prefix {
            for mut k in 0..total / prefix.len() {
                let mut s = p.to_string();
                for _ in 0..len {
                    s += alphabet[k % alphabet.len()];
                    k /= alphabet.len();
                }
                done += 1;
                if !f(s) {
                    return (done, len);
                }
            }
        }
        depth = len;
    }
    (done, depth)
}

/// `n` copies of `s`; every `@` becomes the number of the copy, counted from 1.
fn rep_n(s: &str, n: usize) -> String {
    if !s.contains('@') {
        return s.repeat(n);
    }
    let mut out = String::new();
    for k in 1..=n {
        out += &s.replace('@', &k.to_string());
    }
    out
}

/// Very long runs of one thing, for code whose stack grows with the input.
pub fn deep(n: usize, mut f: impl FnMut(String) -> bool) -> usize {
    let rep = |s: &str| rep_n(s, n);
    let v3 = "v 1 2 3\nv 4 5 6\nv 7 8 9\n";
    let all = [
        rep("\n"),
        rep("\r\n"),
        rep("#\n"),
        rep(" "),
        format!("#{}", rep("x")),
        format!("{v3}{}p 1\n", rep("\n")),
        format!("{v3}f {}\n", rep("1 ")),
        format!("{v3}l {}\n", rep("1 ")),
        format!("{v3}p {}\n", rep("1 ")),
        rep("v 1 2 3\n"),
        format!("{v3}{}", rep("g a\n")),
        format!("{v3}g {}\n", rep("a ")),
        format!("{v3}{}", rep("s 1\n")),
        format!("{v3}{}", rep("usemtl a\n")),
        format!("{v3}{}", rep("p 1\n")),
        rep("o a\n"),
        format!("o {}\n", rep("a")),
        rep("mtllib a\n"),
        format!("mtllib {}\n", rep("a ")),
        rep("newmtl a\n"),
        format!("newmtl a\n{}", rep("\n")),
        format!("newmtl a\n{}", rep("Ns 1\n")),
        format!("newmtl a\n{}", rep("map_Kd x\n")),
        format!("{v3}p 1{}\n", rep("/")),
        format!("{v3}l 1{} 2\n", rep("/")),
    ];
    let mut done = 0;
    for s in all {
        done += 1;
        if !f(s) {
            break;
        }
    }
    done
}

/// Large files: one dimension at a time, at the sizes where a narrow counter would wrap.
pub fn bulk(prop: &str, sizes: &[usize], mut f: impl FnMut(String) -> bool) -> usize {
    let mut done = 0;
    let both = matches!(prop, "C01" | "C02" | "C17" | "C20");
    let mtl = matches!(prop, "C14" | "C15" | "C16");
    for &n in sizes {
        let mut all: Vec<String> = vec![];
        let rep = |s: &str| rep_n(s, n);
        if !mtl {
            let v3 = "v 1 2 3\nv 4 5 6\nv 7 8 9\n";
            let m = n.max(2) - 1;
            all.push(format!("{}f {n} {m} -1\nl -{n} 1\np {n} -{n}\n", rep("v @ 2 3\n")));
            all.push(format!("o a\n{}p {n}\no b\nv 1 2 3\nf {} -1 {}\n", rep("v @ 2 3\n"), n + 1, n + 1));
            all.push(format!("o a\n{}p {n}\no b\nv 1 2 3\nv 4 5 6\nf {} -1 -2\np {n}\n", rep("v @ 2 3\n"), n + 2));
            all.push(format!("{}f {n} {m} -1\np {}\n", rep("v 1 2 @\n"), n + 1));
            all.push(format!("{v3}{}f 1/{n} 2/-{n} 3/1\nl 1/{m} 2/-1\n", rep("vt @\n")));
            all.push(format!("{v3}{}f 1//{n} 2//-{n} 3//1\nl 1//{m} 2//-1\n", rep("vn @ 0 1\n")));
            all.push(format!("{v3}o b\n{}p 4\nl -1/-1/-1 -{n}/-{n}/-{n}\n", rep("v @ 2 3\nvt @\nvn @ 0 1\n")));
            all.push(format!("{v3}f {}\n", rep("1 ")));
            all.push(format!("{v3}f {}2 3\np 1\n", rep("1 ")));
            all.push(format!("{v3}l {}2\np 1\n", rep("1 ")));
            all.push(format!("{v3}p {}2\np 1\n", rep("1 ")));
            all.push(format!("{}f {}\np 1\n", rep("v 1 2 @\n"), rep("@ ")));
            all.push(format!("{}l {}\np 1\n", rep("v 1 2 @\n"), rep("@ ")));
            all.push(format!("{}p {}\nf -1 -2 -3\n", rep("v 1 2 @\n"), rep("@ ")));
            all.push(format!("{}{}", rep("v 1 2 @\n"), rep("p @\n")));
            all.push(format!("{v3}g {}\nf 1 2 3\np 1\ng b\nl 1 2\n", rep("a@ ")));
            all.push(format!("{v3}{}", rep("g a@\np 1\n")));
            all.push(format!("{v3}{}", rep("g a@ b@\np 1\nf 1 2 3\n")));
            all.push(format!("{v3}{}f 1 2 3\n", rep("g a@\n")));
            all.push(format!("{v3}{}f 1 2 3\n", rep("s @\n")));
            all.push(format!("{v3}{}", rep("s @\np 2\n")));
            all.push(format!("{v3}{}", rep("usemtl m@\np 3\n")));
            all.push(format!("{v3}{}p 3\n", rep("usemtl m@\n")));
            all.push(format!("{v3}usemtl a\n{}usemtl b\nf 3 2 1\n", rep("f 1 2 3\n")));
            all.push(format!("{v3}g a\ns 1\nusemtl a\n{}g b\ns 2\nusemtl b\nf 3 2 1\n", rep("f 1 2 3\n")));
            all.push(format!("mtllib {}\n{v3}p 1\n", rep("m@ ")));
            all.push(rep("mtllib x@\n"));
            all.push(rep("o x@\nv @ 2 3\np -1\n"));
            all.push(rep("o x@\nv @ 2 3\np @\n"));
            all.push(format!("{}bad 1\n", rep("\n")));
            all.push(format!("{v3}{}f 1 2 9\n", rep("\r\n")));
            all.push(format!("{v3}{}f 1 2 9\n", rep("\r")));
            all.push(format!("{v3}{}f 1 2 9\n", rep("p 1\n")));
            all.push(format!("{}o x\n{v3}p 1\n", rep("# c\n")));
            all.push(format!("{}v 1 2 3\n#{}\n{v3}p 1\n", rep(" "), rep("x")));
            all.push(format!("o {}\n{v3}g {}\nusemtl {}\np 1\n", rep("x"), rep("é"), rep("y")));
            all.push(format!("v {} 2 3\np 1\n", rep("1")));
            if n <= 1025 {
                for t in ["mtllib a", "x 1", "newmtl a", "o", "g", "s", "usemtl", "f 1 2", "p 1/1", "v 1 2", "vt", "#", ""] {
                    all.push(format!("{v3}{}{t}\np 1\n", rep("p 1\n")));
                    all.push(format!("{v3}{}\n{t}\np 1\n", rep("p 1\n")));
                    all.push(format!("{v3}p 1\n{}{t}\np 1\n", rep("\n")));
                    all.push(format!("o a\n{}{t}\np 1\n", rep("v 1 2 3\n")));
                }
            }
            all.push(format!("v 1.{} 2 3\np 1\n", rep("0")));
            all.push(format!("v 1 2 3\np {}1\n", rep("0")));
        }
        if mtl || both {
            all.push(rep("newmtl m@\nKa @ 2 3\n"));
            all.push(rep("newmtl m@\n"));
            all.push(format!("newmtl m\n{}Kd 1 0 0\n", rep("Ka 1 2 @\nmap_Kd x@\n")));
            all.push(format!("newmtl m\n{}bad\n", rep("\n")));
            all.push(format!("newmtl m\n{}bad\n", rep("Ns @\n")));
            all.push(format!("newmtl {}\nmap_Kd {}\nKs 1 2 3\n", rep("m"), rep("é")));
            all.push(format!("newmtl m\nKs {} 2 3\n", rep("1")));
            all.push(format!("newmtl m\nNs 1.{}\n", rep("0")));
        }
        for s in all {
            if s.len() > 3_000_000 {
                continue;
            }
            done += 1;
            if !f(s) {
                return done;
            }
        }
    }
    done
}
