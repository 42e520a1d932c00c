//! What each property says about one input, judged against the reference.

use crate::reference::{self, El, Ix, Mat, Obj, Set};
use std::panic::{catch_unwind, AssertUnwindSafe};
use wavefront_obj::{mtl, obj};

#[derive(Clone, Debug, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(String, usize),
    Panic(String),
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

fn guard<T>(f: impl FnOnce() -> Result<T, (String, usize)>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Out::Ok(x),
        Ok(Err((k, l))) => Out::Err(k, l),
        Err(p) => Out::Panic(panic_text(p)),
    }
}

fn ix(i: obj::VTNIndex) -> Ix {
    match i {
        obj::VTNIndex::V(v) => (v, None, None),
        obj::VTNIndex::VT(v, t) => (v, Some(t), None),
        obj::VTNIndex::VN(v, n) => (v, None, Some(n)),
        obj::VTNIndex::VTN(v, t, n) => (v, Some(t), Some(n)),
    }
}

fn view(s: &obj::ObjectSet) -> Set {
    Set {
        libs: s.material_libraries.clone(),
        objects: s
            .objects
            .iter()
            .map(|o| Obj {
                name: o.name.clone(),
                v: o.vertex_set.iter().map(|v| [v.x.to_bits(), v.y.to_bits(), v.z.to_bits(), v.w.to_bits()]).collect(),
                t: o.texture_vertex_set.iter().map(|v| [v.u.to_bits(), v.v.to_bits(), v.w.to_bits()]).collect(),
                n: o.normal_vertex_set.iter().map(|v| [v.x.to_bits(), v.y.to_bits(), v.z.to_bits()]).collect(),
                groups: o.group_set.iter().map(|g| g.0.clone()).collect(),
                smooth: o.smoothing_group_set.iter().map(|g| g.0).collect(),
                elems: o
                    .element_set
                    .iter()
                    .map(|e| match *e {
                        obj::Element::Point(a) => El::P(ix(a)),
                        obj::Element::Line(a, b) => El::L(ix(a), ix(b)),
                        obj::Element::Face(a, b, c) => El::F(ix(a), ix(b), ix(c)),
                    })
                    .collect(),
                shapes: o.shape_set.iter().map(|s| (s.element, s.groups.clone(), s.smoothing_group)).collect(),
                geoms: o.geometry_set.iter().map(|g| (g.material_name.clone(), g.shapes.clone())).collect(),
            })
            .collect(),
    }
}

pub fn run_obj(input: &str) -> Out<obj::ObjectSet> {
    guard(|| obj::parse(input).map_err(|e| (format!("{:?}", e.kind), e.line_number)))
}

/// The fields of an MTL error are private: its kind and line are read from its `Debug` text.
fn between<'a>(s: &'a str, a: &str, b: &str) -> Option<&'a str> {
    let i = s.find(a)? + a.len();
    let j = s[i..].find(b)? + i;
    Some(&s[i..j])
}

/// A debug text without its string literals.
fn unquoted(s: &str) -> String {
    let mut out = String::new();
    let (mut inside, mut escaped) = (false, false);
    for c in s.chars() {
        if inside {
            inside = escaped || c != '"';
            escaped = !escaped && c == '\\';
        } else if c == '"' {
            inside = true;
        } else {
            out.push(c);
        }
    }
    out
}

pub fn run_mtl(input: &str) -> Out<mtl::MaterialSet> {
    guard(|| {
        mtl::parse(input).map_err(|e| {
            let d = unquoted(&format!("{:?}", e));
            let words = || d.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty());
            let kind = words().filter(|w| *w != "ParseError" && *w != "ErrorKind").find(|w| w.starts_with(|c: char| c.is_uppercase())).unwrap_or("?").to_string();
            let line = words().find_map(|w| w.parse().ok());
            let shown = format!("{}", e);
            let shown = between(&shown, "line ", ":").and_then(|s| s.parse().ok());
            (kind, line.or(shown).unwrap_or(0))
        })
    })
}

fn c3(c: &mtl::Color) -> [u64; 3] {
    [c.r.to_bits(), c.g.to_bits(), c.b.to_bits()]
}

fn mats(s: &mtl::MaterialSet) -> Vec<Mat> {
    s.materials
        .iter()
        .map(|m| Mat {
            name: m.name.clone(),
            colors: [c3(&m.color_ambient), c3(&m.color_diffuse), c3(&m.color_specular), c3(&m.color_emissive)],
            ns: m.specular_exponent.to_bits(),
            d: m.dissolve.to_bits(),
            ni: m.optical_density.map(|x| x.to_bits()),
            illum: match m.illumination_model {
                mtl::IlluminationModel::Ambient => 0,
                mtl::IlluminationModel::AmbientDiffuse => 1,
                mtl::IlluminationModel::AmbientDiffuseSpecular => 2,
            },
            maps: [
                m.map_ambient.clone(),
                m.map_diffuse.clone(),
                m.map_specular.clone(),
                m.map_emissive.clone(),
                m.map_specular_exponent.clone(),
                m.map_bump.clone(),
                m.map_displacement.clone(),
                m.map_dissolve.clone(),
                m.map_decal.clone(),
            ],
        })
        .collect()
}

pub fn map_out<T, U>(o: Out<T>, f: impl FnOnce(&T) -> U) -> Out<U> {
    match o {
        Out::Ok(x) => Out::Ok(f(&x)),
        Out::Err(k, l) => Out::Err(k, l),
        Out::Panic(p) => Out::Panic(p),
    }
}

fn want<T: Clone>(r: Result<T, reference::Bad>) -> Out<T> {
    match r {
        Ok(x) => Out::Ok(x),
        Err((k, l)) => Out::Err(k.to_string(), l),
    }
}

type V = Option<String>;

fn differ<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> V {
    if got == want {
        None
    } else {
        Some(format!("{what}: got {}, want {}", clip(&format!("{got:?}")), clip(&format!("{want:?}"))))
    }
}

pub fn clip(s: &str) -> String {
    if s.chars().count() > 400 {
        s.chars().take(400).collect::<String>() + "..."
    } else {
        s.to_string()
    }
}

fn forms(e: &El) -> (u8, bool, bool) {
    let f = |i: &Ix| (i.1.is_some(), i.2.is_some());
    let (k, v) = match e {
        El::P(a) => (0, vec![f(a)]),
        El::L(a, b) => (1, vec![f(a), f(b)]),
        El::F(a, b, c) => (2, vec![f(a), f(b), f(c)]),
    };
    (k, v.iter().any(|x| x.0), v.iter().any(|x| x.1))
}

fn corners(e: &El) -> Vec<Ix> {
    match e {
        El::P(a) => vec![*a],
        El::L(a, b) => vec![*a, *b],
        El::F(a, b, c) => vec![*a, *b, *c],
    }
}

const INDEX_KINDS: [&str; 1] = ["VTNIndexOutOfRange"];
const FORM_KINDS: [&str; 2] = ["ExpectedVTNIndex", "EveryVTNIndexMustHaveTheSameFormForAGivenElement"];

fn is(k: &str, set: &[&str]) -> bool {
    set.contains(&k)
}

/// A property about data: what a file that is accepted must turn into. `judge` compares two results;
/// `about` says whether the property speaks about this file at all when the parser rejects it.
fn data<T: Clone>(got: &Out<T>, want: &Out<T>, about: impl Fn(&T) -> bool, kinds: &[&str], judge: impl Fn(&T, &T) -> V) -> V {
    match (got, want) {
        (Out::Ok(g), Out::Ok(w)) => judge(g, w),
        (Out::Err(k, l), Out::Ok(w)) if about(w) => Some(format!("a valid file is rejected: {k} at line {l}")),
        (Out::Panic(p), Out::Ok(w)) if about(w) => Some(format!("a valid file makes the parser panic: {p}")),
        (Out::Ok(_), Out::Err(k, l)) if is(k, kinds) => Some(format!("accepted, though it must be rejected with {k} at line {l}")),
        (Out::Panic(p), Out::Err(k, l)) if is(k, kinds) => Some(format!("panics ({p}), though it must be rejected with {k} at line {l}")),
        (Out::Err(g, _), Out::Err(k, _)) if g != k && is(k, kinds) => Some(format!("rejected with {g}, want {k}")),
        _ => None,
    }
}

fn per_object<T: PartialEq + std::fmt::Debug>(what: &str, g: &Set, w: &Set, f: impl Fn(&Obj) -> T) -> V {
    let a: Vec<T> = g.objects.iter().map(&f).collect();
    let b: Vec<T> = w.objects.iter().map(&f).collect();
    differ(what, &a, &b)
}

/// A text that must be rejected was accepted: at least the statements before the violation are in the result.
fn before_violation(prop: &str, got: &Out<Set>, input: &str) -> V {
    let g = match got {
        Out::Ok(g) => g,
        _ => return None,
    };
    let w = match reference::obj_until(input) {
        (w, Some(_)) => w,
        _ => return None,
    };
    for (k, o) in w.objects.iter().enumerate() {
        let last = k + 1 == w.objects.len();
        let p = match g.objects.get(k) {
            Some(p) => p,
            None => return if prop == "C12" { Some(format!("object {k} is missing")) } else { None },
        };
        fn starts<T: Clone + PartialEq + std::fmt::Debug>(what: &str, k: usize, last: bool, a: &[T], b: &[T]) -> V {
            let a = if last { &a[..a.len().min(b.len())] } else { a };
            differ(&format!("{what} of object {k}, before the first violation"), &a.to_vec(), &b.to_vec())
        }
        let d = match prop {
            "C06" | "C07" | "C08" => starts("elements", k, last, &p.elems, &o.elems),
            "C09" => starts("vertices", k, last, &p.v, &o.v).or_else(|| starts("texture vertices", k, last, &p.t, &o.t)).or_else(|| starts("normals", k, last, &p.n, &o.n)),
            "C12" => differ("object name", &p.name, &o.name),
            _ => None,
        };
        if d.is_some() {
            return d;
        }
    }
    None
}

fn any(f: impl Fn(&Obj) -> bool) -> impl Fn(&Set) -> bool {
    move |s: &Set| s.objects.iter().any(&f)
}

pub fn is_mtl(prop: &str) -> bool {
    matches!(prop, "C14" | "C15" | "C16")
}

fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

/// The same tokens, laid out differently. Variants below 6 keep the number of line endings.
fn relayout(toks: &[String], variant: usize, seed: u64) -> String {
    let mut rng = crate::gen::Rng::new(seed ^ variant as u64);
    let mut s = String::new();
    let nl = ["\n", "\n", "\r\n", "\r", "\n", "\r\n", "\n"][variant];
    for (i, t) in toks.iter().enumerate() {
        if t == "\n" {
            match variant {
                1 => s += "  # a comment f 1 2 3",
                4 => s += ["", " ", "\t#", "#x # y", " \\ ", " #é", " # \\", "#\\ "][rng.below(8)],
                _ => {}
            }
            s += nl;
            if variant == 5 {
                s += ["", " ", "\t\t"][rng.below(3)];
            }
            if variant == 6 {
                for _ in 0..rng.below(3) {
                    s += ["\n", "  \r\n", "# c\n"][rng.below(3)];
                }
            }
        } else {
            if i > 0 && toks[i - 1] != "\n" {
                s += match variant {
                    0 | 2 | 3 => " ",
                    1 => "\t",
                    _ => ["  ", " \t ", "\\", " \\ ", "\t"][rng.below(5)],
                };
            } else if variant == 1 {
                s += "    ";
            }
            s += t;
        }
    }
    s
}

fn no_line<T>(o: Out<T>) -> Out<T> {
    match o {
        Out::Err(k, _) => Out::Err(k, 0),
        o => o,
    }
}

fn debug_text<T: std::fmt::Debug>(o: &Out<T>) -> String {
    // NaN is not equal to itself, so results are compared as text.
    format!("{o:?}")
}

fn vtn_text(i: &Ix) -> String {
    let n = |x: usize| (x as u128 + 1).to_string();
    match i {
        (v, None, None) => n(*v),
        (v, Some(t), None) => n(*v) + "/" + &n(*t),
        (v, None, Some(m)) => n(*v) + "//" + &n(*m),
        (v, Some(t), Some(m)) => n(*v) + "/" + &n(*t) + "/" + &n(*m),
    }
}

#[cfg(feature = "lexer")]
mod lex {
    use crate::lexer::{Lexer, PeekableLexer};
    use std::panic::{catch_unwind, AssertUnwindSafe};

    fn limit(input: &str) -> usize {
        input.len() + 8
    }

    /// The tokens as bytes.
    pub fn raw(input: &str) -> Result<Vec<Vec<u8>>, String> {
        catch_unwind(AssertUnwindSafe(|| Lexer::new(input).take(limit(input)).map(|t| t.to_vec()).collect())).map_err(super::panic_text)
    }

    /// The tokens read with a pattern of lookahead: bit `k` of the pattern says whether call `k` looks ahead.
    pub fn peeking(input: &str, pattern: u64) -> Result<(Vec<Vec<u8>>, Option<String>), String> {
        catch_unwind(AssertUnwindSafe(|| {
            let mut l = PeekableLexer::new(Lexer::new(input));
            let mut out = vec![];
            let mut wrong = None;
            let mut k = 0;
            let mut seen: Option<Option<Vec<u8>>> = None;
            for _ in 0..limit(input) {
                while (pattern >> (k % 64)) & 1 == 1 && k % 64 != 63 {
                    k += 1;
                    let p = l.peek().map(|t| t.as_bytes().to_vec());
                    if let Some(s) = &seen {
                        if *s != p && wrong.is_none() {
                            wrong = Some(format!("looking ahead twice gives {s:?}, then {p:?}"));
                        }
                    }
                    seen = Some(p);
                }
                k += 1;
                let n = if k % 3 == 0 { l.next() } else { l.next_token() }.map(|t| t.as_bytes().to_vec());
                if let Some(s) = seen.take() {
                    if s != n && wrong.is_none() {
                        wrong = Some(format!("looking ahead gives {s:?}, but {n:?} comes next"));
                    }
                }
                match n {
                    Some(t) => out.push(t),
                    None => {
                        if l.peek().is_some() || l.next_token().is_some() {
                            wrong = wrong.or(Some("a token after the last one".to_string()));
                        }
                        break;
                    }
                }
            }
            (out, wrong)
        }))
        .map_err(super::panic_text)
    }
}

fn texts(v: &[Vec<u8>]) -> Vec<String> {
    v.iter().map(|b| String::from_utf8_lossy(b).into_owned()).collect()
}
#[cfg(not(feature = "lexer"))]
mod lex {
    pub fn raw(_: &str) -> Result<Vec<Vec<u8>>, String> {
        Err("no lexer".to_string())
    }
    pub fn peeking(_: &str, _: u64) -> Result<(Vec<Vec<u8>>, Option<String>), String> {
        Err("no lexer".to_string())
    }
}

fn all_strings(s: &obj::ObjectSet) -> Vec<&String> {
    let mut v: Vec<&String> = s.material_libraries.iter().collect();
    for o in &s.objects {
        v.push(&o.name);
        v.extend(o.group_set.iter().map(|g| &g.0));
        v.extend(o.geometry_set.iter().filter_map(|g| g.material_name.as_ref()));
    }
    v
}

/// Whether the input breaks the property, and how.
pub fn check(prop: &str, input: &str) -> V {
    let g = || map_out(run_obj(input), view);
    let w = || want(reference::obj(input));
    let gm = || map_out(run_mtl(input), mats);
    let wm = || want(reference::mtl(input));
    let yes = |_: &Set| true;
    if matches!(prop, "C06" | "C07" | "C08" | "C09" | "C12") {
        if let Some(d) = before_violation(prop, &g(), input) {
            return Some(d);
        }
    }
    match prop {
        "C01" => {
            if let Out::Panic(p) = run_obj(input) {
                return Some(format!("obj::parse panics: {p}"));
            }
            if let Out::Panic(p) = run_mtl(input) {
                return Some(format!("mtl::parse panics: {p}"));
            }
            if let Out::Ok(s) = run_obj(input) {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let _ = format!("{s}");
                    for o in &s.objects {
                        for e in &o.element_set {
                            let _ = format!("{e}");
                        }
                    }
                }));
                if let Err(p) = r {
                    return Some(format!("displaying the result panics: {}", panic_text(p)));
                }
            }
            None
        }
        "C02" => {
            if let Ok(ts) = lex::raw(input) {
                if let Some(t) = ts.iter().find(|t| std::str::from_utf8(t).is_err()) {
                    return Some(format!("a token is not well-formed text: {t:?}"));
                }
            }
            if let Ok((ts, _)) = lex::peeking(input, 0x5) {
                if let Some(t) = ts.iter().find(|t| std::str::from_utf8(t).is_err()) {
                    return Some(format!("a token is not well-formed text: {t:?}"));
                }
            }
            if let Out::Ok(s) = run_obj(input) {
                if let Some(t) = all_strings(&s).iter().find(|t| std::str::from_utf8(t.as_bytes()).is_err()) {
                    return Some(format!("a string in the result is not well-formed text: {:?}", t.as_bytes()));
                }
            }
            if let Out::Ok(s) = run_mtl(input) {
                if let Some(t) = mats(&s).iter().flat_map(|m| m.maps.iter().flatten().cloned().chain([m.name.clone()])).find(|t| std::str::from_utf8(t.as_bytes()).is_err()) {
                    return Some(format!("a string in the result is not well-formed text: {:?}", t.as_bytes()));
                }
            }
            None
        }
        "C03" => {
            let want = reference::tokens(input);
            if cfg!(feature = "lexer") {
                match lex::raw(input) {
                    Err(p) => return Some(format!("the lexer panics: {p}")),
                    Ok(ts) => {
                        if let Some(v) = differ("tokens", &texts(&ts), &want) {
                            return Some(v);
                        }
                    }
                }
            }
            // The same through the parser: every token of a line of names is a name.
            let line: Vec<String> = want.iter().take_while(|t| *t != "\n").cloned().collect();
            match run_obj(&format!("mtllib {input}")) {
                Out::Ok(s) if !s.material_libraries.starts_with(&line) => Some(format!("names: got {:?}, want {:?}", s.material_libraries, line)),
                Out::Panic(p) => Some(format!("the parser panics: {p}")),
                _ => None,
            }
        }
        "C04" => {
            if cfg!(feature = "lexer") {
                let plain = match lex::raw(input) {
                    Err(_) => return None,
                    Ok(t) => t,
                };
                for pattern in [0, 0x5555555555555555, 0x3333333333333333, 0x0123456789abcdef, hash(input)] {
                    match lex::peeking(input, pattern) {
                        Err(p) => return Some(format!("the lexer panics with lookahead pattern {pattern:#x}: {p}")),
                        Ok((_, Some(wrong))) => return Some(format!("{wrong} (lookahead pattern {pattern:#x})")),
                        Ok((ts, None)) => {
                            if let Some(v) = differ(&format!("tokens with lookahead pattern {pattern:#x}"), &texts(&ts), &texts(&plain)) {
                                return Some(v);
                            }
                        }
                    }
                }
                None
            } else {
                data(&g(), &w(), yes, &[], |g, w| differ("result", g, w))
            }
        }
        "C05" => match run_obj(input) {
            Out::Ok(s) => {
                for (k, o) in view(&s).objects.iter().enumerate() {
                    for e in &o.elems {
                        for (v, t, n) in corners(e) {
                            if v >= o.v.len() || t.map_or(false, |t| t >= o.t.len()) || n.map_or(false, |n| n >= o.n.len()) {
                                return Some(format!("object {k}: element {e:?} does not resolve ({} vertices, {} texture vertices, {} normals)", o.v.len(), o.t.len(), o.n.len()));
                            }
                        }
                    }
                }
                for o in &s.objects {
                    for e in &o.element_set {
                        let ix: Vec<_> = match *e {
                            obj::Element::Point(a) => vec![a],
                            obj::Element::Line(a, b) => vec![a, b],
                            obj::Element::Face(a, b, c) => vec![a, b, c],
                        };
                        if let Some(i) = ix.iter().find(|i| o.get_vtn_triple(**i).is_none()) {
                            return Some(format!("index {i:?} does not resolve"));
                        }
                    }
                }
                None
            }
            _ => None,
        },
        "C06" => data(&g(), &w(), any(|o| !o.elems.is_empty()), &INDEX_KINDS, |g, w| {
            let flat = |s: &Set| s.objects.iter().flat_map(|o| o.elems.iter().flat_map(corners)).collect::<Vec<_>>();
            let (a, b) = (flat(g), flat(w));
            differ("resolved indices", &a, &b)
        }),
        // The only form a point index has is `v`.
        "C07" if matches!((&g(), &w()), (Out::Ok(_), Out::Err(k, _)) if k == "ExpectedInteger") => Some("accepted, though an index in it has no valid form".to_string()),
        "C07" => data(&g(), &w(), any(|o| !o.elems.is_empty()), &FORM_KINDS, |g, w| per_object("index forms", g, w, |o| o.elems.iter().map(forms).collect::<Vec<_>>())),
        "C08" => data(&g(), &w(), any(|o| !o.elems.is_empty()), &["EveryFaceElementMustHaveAtLeastThreeVertices"], |g, w| {
            per_object("elements", g, w, |o| o.elems.clone())
        }),
        "C09" => data(&g(), &w(), any(|o| !(o.v.is_empty() && o.t.is_empty() && o.n.is_empty())), &["ExpectedFloat"], |g, w| {
            per_object("vertices", g, w, |o| o.v.clone())
                .or_else(|| per_object("texture vertices", g, w, |o| o.t.clone()))
                .or_else(|| per_object("normals", g, w, |o| o.n.clone()))
        }),
        "C10" => data(
            &g(),
            &w(),
            any(|o| !o.elems.is_empty() || !o.groups.is_empty() || !o.smooth.is_empty()),
            &["SmoothingGroupNameMustBeOffOrInteger", "SmoothingGroupDeclarationHasNoName"],
            |g, w| {
                per_object("groups", g, w, |o| o.groups.clone())
                    .or_else(|| per_object("smoothing groups", g, w, |o| o.smooth.clone()))
                    .or_else(|| per_object("shapes", g, w, |o| o.shapes.clone()))
            },
        ),
        "C11" => data(&g(), &w(), any(|o| !o.geoms.is_empty()), &["MaterialStatementHasNoName"], |g, w| per_object("geometries", g, w, |o| o.geoms.clone())),
        "C12" if matches!((&g(), &w()), (Out::Ok(_), Out::Err(k, _)) if k == "InvalidObjectStatement") => {
            Some("accepted, though a statement in it belongs to no object".to_string())
        }
        "C12" => data(&g(), &w(), yes, &[], |g, w| {
            differ("material libraries", &g.libs, &w.libs)
                .or_else(|| per_object("object names", g, w, |o| o.name.clone()))
                .or_else(|| per_object("sizes", g, w, |o| (o.v.len(), o.t.len(), o.n.len(), o.elems.len())))
                .or_else(|| per_object("elements", g, w, |o| o.elems.clone()))
                .or_else(|| per_object("vertices", g, w, |o| o.v.clone()))
        }),
        "C13" => match (g(), w()) {
            (Out::Ok(_), Out::Ok(_)) => None,
            (Out::Err(a, _), Out::Err(b, _)) => {
                if a == b {
                    None
                } else {
                    Some(format!("rejected with {a}, want {b}"))
                }
            }
            (Out::Ok(_), Out::Err(k, l)) => Some(format!("accepted, though it must be rejected with {k} at line {l}")),
            (Out::Err(k, l), Out::Ok(_)) => Some(format!("a valid file is rejected: {k} at line {l}")),
            (Out::Panic(p), _) => Some(format!("the parser panics: {p}")),
            _ => None,
        },
        "C14" => data(&gm(), &wm(), |m: &Vec<Mat>| !m.is_empty(), &["ExpectedEndOfInput"], |g, w| {
            differ("material names", &g.iter().map(|m| &m.name).collect::<Vec<_>>(), &w.iter().map(|m| &m.name).collect::<Vec<_>>())
        }),
        "C15" => data(&gm(), &wm(), |m: &Vec<Mat>| !m.is_empty(), &["ExpectedFloat", "UnknownIlluminationModel"], |g, w| {
            for (a, b) in g.iter().zip(w) {
                let (mut a, mut b) = (a.clone(), b.clone());
                a.name.clear();
                b.name.clear();
                if a != b {
                    return differ("material", &a, &b);
                }
            }
            None
        }),
        "C16" => match (gm(), wm()) {
            (Out::Ok(_), Out::Ok(_)) => None,
            (Out::Err(a, _), Out::Err(b, _)) => {
                if a == b || a == "?" {
                    None
                } else {
                    Some(format!("rejected with {a}, want {b}"))
                }
            }
            (Out::Ok(_), Out::Err(k, l)) => Some(format!("accepted, though it must be rejected with {k} at line {l}")),
            (Out::Err(k, l), Out::Ok(_)) => Some(format!("a valid file is rejected: {k} at line {l}")),
            (Out::Panic(p), _) => Some(format!("the parser panics: {p}")),
            _ => None,
        },
        "C17" => {
            if let (Out::Err(k, a), Out::Err(_, b)) = (g(), w()) {
                if a != b {
                    return Some(format!("OBJ error {k} reported at line {a}, want line {b}"));
                }
            }
            if let Err(e) = obj::parse(input) {
                let shown = format!("{e}");
                if let Some(l) = between(&shown, "line ", ":").and_then(|s| s.parse::<usize>().ok()) {
                    if l != e.line_number {
                        return Some(format!("the OBJ error is displayed with line {l}, and has line {}", e.line_number));
                    }
                }
            }
            if let (Out::Err(k, a), Out::Err(_, b)) = (gm(), wm()) {
                if a != b && a != 0 {
                    return Some(format!("MTL error {k} reported at line {a}, want line {b}"));
                }
            }
            None
        }
        "C18" => {
            if let Ok(r) = catch_unwind(AssertUnwindSafe(|| display_facet(input))) {
                return r;
            }
            Some("displaying panics".to_string())
        }
        "C19" => {
            let s = match run_obj(input) {
                Out::Ok(s) => s,
                _ => return None,
            };
            for o in &s.objects {
                let size = |n: usize| -> Vec<usize> { [0, 1, n.wrapping_sub(1), n, n + 1, usize::MAX].to_vec() };
                let mut all = vec![];
                // Values that a narrower integer or a sum would take for one inside.
                let far = |n: usize| -> Vec<usize> {
                    let mut out = vec![];
                    for bits in [8, 16, 31, 32, 63] {
                        out.extend([1usize << bits, (1usize << bits) + n / 2, (1usize << bits).wrapping_add(n).wrapping_sub(1)]);
                    }
                    out.extend([usize::MAX - 1, usize::MAX - n / 2, isize::MAX as usize]);
                    out
                };
                for v in far(o.vertex_set.len()) {
                    all.extend([obj::VTNIndex::V(v), obj::VTNIndex::VT(v, 0), obj::VTNIndex::VN(v, 0), obj::VTNIndex::VTN(v, 0, 0)]);
                }
                for t in far(o.texture_vertex_set.len()) {
                    all.extend([obj::VTNIndex::VT(0, t), obj::VTNIndex::VTN(0, t, 0)]);
                }
                for n in far(o.normal_vertex_set.len()) {
                    all.extend([obj::VTNIndex::VN(0, n), obj::VTNIndex::VTN(0, 0, n)]);
                }
                for &v in &size(o.vertex_set.len()) {
                    all.push(obj::VTNIndex::V(v));
                    for &t in &size(o.texture_vertex_set.len()) {
                        all.push(obj::VTNIndex::VT(v, t));
                        for &n in &size(o.normal_vertex_set.len()) {
                            all.push(obj::VTNIndex::VTN(v, t, n));
                        }
                    }
                    for &n in &size(o.normal_vertex_set.len()) {
                        all.push(obj::VTNIndex::VN(v, n));
                    }
                }
                for &i in &all {
                    let (v, t, n) = ix(i);
                    let (v, t, n) = (o.vertex_set.get(v), t.map(|t| o.texture_vertex_set.get(t)), n.map(|n| o.normal_vertex_set.get(n)));
                    let want = match (v, t, n) {
                        (Some(v), None, None) => Some(obj::VTNTriple::V(v)),
                        (Some(v), Some(Some(t)), None) => Some(obj::VTNTriple::VT(v, t)),
                        (Some(v), None, Some(Some(n))) => Some(obj::VTNTriple::VN(v, n)),
                        (Some(v), Some(Some(t)), Some(Some(n))) => Some(obj::VTNTriple::VTN(v, t, n)),
                        _ => None,
                    };
                    let got = match catch_unwind(AssertUnwindSafe(|| o.get_vtn_triple(i))) {
                        Ok(g) => g,
                        Err(p) => return Some(format!("get_vtn_triple({i:?}) panics: {}", panic_text(p))),
                    };
                    let same = match (&got, &want) {
                        (None, None) => true,
                        (Some(a), Some(b)) => same_triple(a, b),
                        _ => false,
                    };
                    if !same {
                        return Some(format!("get_vtn_triple({i:?}): got {got:?}, want {want:?}"));
                    }
                }
                let pick = [obj::VTNIndex::V(1), obj::VTNIndex::VT(1, 2), obj::VTNIndex::VN(1, 2), obj::VTNIndex::VTN(1, 2, 3), obj::VTNIndex::V(0), obj::VTNIndex::VT(0, 0), obj::VTNIndex::VN(0, 0), obj::VTNIndex::VTN(0, 0, 0)];
                for a in pick {
                    for b in pick {
                        let want = (ix(a).1.is_some(), ix(a).2.is_some()) == (ix(b).1.is_some(), ix(b).2.is_some());
                        if a.has_same_type_as(&b) != want {
                            return Some(format!("{a:?}.has_same_type_as({b:?}) is {}", !want));
                        }
                    }
                }
            }
            None
        }
        "C20" => {
            let toks = reference::tokens(input);
            for v in 0..7 {
                let other = relayout(&toks, v, hash(input));
                let (mut a, mut b) = (run_obj(input), run_obj(&other));
                if v == 6 {
                    a = no_line(a);
                    b = no_line(b);
                }
                if debug_text(&a) != debug_text(&b) {
                    return Some(format!("obj::parse: {} but, laid out as {other:?}: {}", clip(&debug_text(&a)), clip(&debug_text(&b))));
                }
                let (mut a, mut b) = (run_mtl(input), run_mtl(&other));
                if v == 6 {
                    a = no_line(a);
                    b = no_line(b);
                }
                if debug_text(&a) != debug_text(&b) {
                    return Some(format!("mtl::parse: {} but, laid out as {other:?}: {}", clip(&debug_text(&a)), clip(&debug_text(&b))));
                }
            }
            None
        }
        _ => panic!("unknown property {prop}"),
    }
}

fn same_triple(a: &obj::VTNTriple, b: &obj::VTNTriple) -> bool {
    use obj::VTNTriple::*;
    match (a, b) {
        (V(x), V(y)) => std::ptr::eq(*x, *y),
        (VT(x, t), VT(y, u)) => std::ptr::eq(*x, *y) && std::ptr::eq(*t, *u),
        (VN(x, n), VN(y, m)) => std::ptr::eq(*x, *y) && std::ptr::eq(*n, *m),
        (VTN(x, t, n), VTN(y, u, m)) => std::ptr::eq(*x, *y) && std::ptr::eq(*t, *u) && std::ptr::eq(*n, *m),
        _ => false,
    }
}

/// What every value of the results and the errors has to be displayed as.
fn differs(what: &str, got: String, want: String) -> V {
    if got == want { None } else { Some(format!("{what} is displayed as {got:?}, want {want:?}")) }
}

fn display_set(s: &obj::ObjectSet) -> V {
    let mut all = String::from("ObjectSet {\n");
    for o in &s.objects {
        for v in &o.vertex_set {
            if let x @ Some(_) = differs("a vertex", format!("{v}"), format!("v  {}  {}  {}  {}", v.x, v.y, v.z, v.w)) { return x; }
        }
        for v in &o.texture_vertex_set {
            if let x @ Some(_) = differs("a texture vertex", format!("{v}"), format!("vt  {}  {}  {}", v.u, v.v, v.w)) { return x; }
        }
        for v in &o.normal_vertex_set {
            if let x @ Some(_) = differs("a normal", format!("{v}"), format!("vn  {}  {}  {}", v.x, v.y, v.z)) { return x; }
        }
        for g in &o.group_set {
            if let x @ Some(_) = differs("a group", format!("{g}"), g.0.clone()) { return x; }
        }
        for g in &o.smoothing_group_set {
            if let x @ Some(_) = differs("a smoothing group", format!("{g}"), if g.0 == 0 { "off".to_string() } else { g.0.to_string() }) { return x; }
        }
        let mut elements = vec![];
        for e in &o.element_set {
            let (tag, ixs): (&str, Vec<obj::VTNIndex>) = match *e {
                obj::Element::Point(a) => ("p", vec![a]),
                obj::Element::Line(a, b) => ("l", vec![a, b]),
                obj::Element::Face(a, b, c) => ("f", vec![a, b, c]),
            };
            let mut want = tag.to_string();
            for i in ixs {
                if let x @ Some(_) = differs("an index", format!("{i}"), vtn_text(&ix(i))) { return x; }
                want = want + "  " + &vtn_text(&ix(i));
            }
            if let x @ Some(_) = differs("an element", format!("{e}"), want.clone()) { return x; }
            elements.push(want);
        }
        fn set(name: &str, s: Vec<String>) -> String {
            let data = match (s.first(), s.last()) { (Some(a), Some(b)) => format!("({a}) ... ({b})"), _ => String::new() };
            format!("    {name} set:\n        data: [{data}]\n        length: {}\n", s.len())
        }
        fn strs<T: std::fmt::Display>(v: &[T]) -> Vec<String> { v.iter().map(|x| x.to_string()).collect() }
        let want = format!("Object {{\n    name: {}\n", o.name) + &set("vertex", strs(&o.vertex_set)) + &set("texture vertex", strs(&o.texture_vertex_set))
            + &set("normal vertex", strs(&o.normal_vertex_set)) + &set("group", strs(&o.group_set)) + &set("smoothing group", strs(&o.smoothing_group_set))
            + &set("element", elements) + "}}\n";
        if let x @ Some(_) = differs("an object", format!("{o}"), want.clone()) { return x; }
        all = all + &want + "\n";
    }
    if let x @ Some(_) = differs("an object set", format!("{s}"), all + "}\n") { return x; }
    None
}

/// Entries that no file need contain: any number, any index, forms mixed.
fn any_set(input: &str) -> Option<obj::ObjectSet> {
    let mut s = guard_obj("o x\nv 0 0 0\nvt 0\nvn 0 0 0\np 1\n")?.ok()?;
    let r = std::cell::RefCell::new(crate::gen::Rng::new(hash(input)));
    let below = |n: usize| r.borrow_mut().below(n);
    let bits = || r.borrow_mut().next();
    let float = || match below(4) {
        0 => f64::from_bits(bits()),
        1 => [0.0, -0.0, 1.0, 1e16, 1e-7, 1e300, f64::NAN, f64::INFINITY, 123456789.0, 0.1][below(10)],
        2 => below(100) as f64,
        _ => bits() as f64 / 1e17,
    };
    let number = || match below(3) {
        0 => below(4),
        1 => (1usize << below(63)) + below(3) - 1,
        _ => (bits() >> 1) as usize,
    };
    let vtn = || match below(4) {
        0 => obj::VTNIndex::V(number()),
        1 => obj::VTNIndex::VT(number(), number()),
        2 => obj::VTNIndex::VN(number(), number()),
        _ => obj::VTNIndex::VTN(number(), number(), number()),
    };
    let word = || ["", "a", "é b", "{}", "off", "\n", "0"][below(7)].to_string();
    let mut o = s.objects.first()?.clone();
    let (v, t, n, g, m) = (o.vertex_set.first()?.clone(), o.texture_vertex_set.first()?.clone(), o.normal_vertex_set.first()?.clone(), o.group_set.first()?.clone(), o.smoothing_group_set.first()?.clone());
    s.objects.clear();
    for _ in 0..below(3) {
        o.name = word();
        o.vertex_set = (0..below(4)).map(|_| { let mut v = v.clone(); (v.x, v.y, v.z, v.w) = (float(), float(), float(), float()); v }).collect();
        o.texture_vertex_set = (0..below(4)).map(|_| { let mut t = t.clone(); (t.u, t.v, t.w) = (float(), float(), float()); t }).collect();
        o.normal_vertex_set = (0..below(4)).map(|_| { let mut n = n.clone(); (n.x, n.y, n.z) = (float(), float(), float()); n }).collect();
        o.group_set = (0..below(4)).map(|_| { let mut g = g.clone(); g.0 = word(); g }).collect();
        o.smoothing_group_set = (0..below(4)).map(|_| { let mut m = m.clone(); m.0 = number(); m }).collect();
        o.element_set = (0..below(4)).map(|_| match below(3) { 0 => obj::Element::Point(vtn()), 1 => obj::Element::Line(vtn(), vtn()), _ => obj::Element::Face(vtn(), vtn(), vtn()) }).collect();
        s.objects.push(o.clone());
    }
    Some(s)
}

fn display_facet(input: &str) -> V {
    if let Some(s) = any_set(input) {
        if let Some(d) = display_set(&s) {
            return Some(d);
        }
    }
    match guard_obj(input) {
        Some(Ok(s)) => {
            if let Some(d) = display_set(&s) {
                return Some(d);
            }
        }
        Some(Err(e)) => {
            if let x @ Some(_) = differs("an OBJ error", format!("{e}"), format!("Parse error at line {}: {}", e.line_number, e.message)) { return x; }
        }
        None => {}
    }
    if let Ok(Err(e)) = catch_unwind(AssertUnwindSafe(|| mtl::parse(input))) {
        let d = format!("{e:?}");
        if let (Some(line), Some(at), true) = (between(&d, "line_number: ", ","), d.find("message: "), d.ends_with(" }")) {
            let message = &d[at + 9..d.len() - 2];
            let got = format!("{e}");
            let ok = got.strip_prefix(&format!("Parse error at line {line}: ")).map_or(false, |m| format!("{m:?}") == message);
            if !ok { return Some(format!("the MTL error {d} is displayed as {got:?}")); }
        }
    }
    None
}

fn guard_obj(input: &str) -> Option<Result<obj::ObjectSet, obj::ParseError>> {
    catch_unwind(AssertUnwindSafe(|| obj::parse(input))).ok()
}
