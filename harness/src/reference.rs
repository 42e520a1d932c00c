//! An executable reading of the properties, written independently of the code in /repo: it is the
//! oracle the replay search compares the real parser with.

pub type Ix = (usize, Option<usize>, Option<usize>);

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    P(Ix),
    L(Ix, Ix),
    F(Ix, Ix, Ix),
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Obj {
    pub name: String,
    pub v: Vec<[u64; 4]>,
    pub t: Vec<[u64; 3]>,
    pub n: Vec<[u64; 3]>,
    pub groups: Vec<String>,
    pub smooth: Vec<usize>,
    pub elems: Vec<El>,
    /// element, groups, smoothing group
    pub shapes: Vec<(usize, Vec<usize>, usize)>,
    pub geoms: Vec<(Option<String>, Vec<usize>)>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Set {
    pub libs: Vec<String>,
    pub objects: Vec<Obj>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Mat {
    pub name: String,
    /// ambient, diffuse, specular, emissive
    pub colors: [[u64; 3]; 4],
    pub ns: u64,
    pub d: u64,
    pub ni: Option<u64>,
    pub illum: u8,
    /// Ka, Kd, Ks, Ke, Ns, bump, disp, d, decal
    pub maps: [Option<String>; 9],
}

/// Kind and line of an error.
pub type Bad = (&'static str, usize);

pub fn tokens(input: &str) -> Vec<String> {
    let mut out = Vec::new();
    let mut word = String::new();
    let mut comment = false;
    let mut it = input.chars().peekable();
    while let Some(c) = it.next() {
        let newline = c == '\n' || c == '\r';
        if comment && !newline {
            continue;
        }
        let ends = newline || c == ' ' || c == '\t' || c == '\\' || c == '#';
        if !ends {
            word.push(c);
            continue;
        }
        if !word.is_empty() {
            out.push(std::mem::take(&mut word));
        }
        comment = c == '#';
        if newline {
            if c == '\r' && it.peek() == Some(&'\n') {
                it.next();
            }
            out.push("\n".to_string());
        }
    }
    if !word.is_empty() {
        out.push(word);
    }
    out
}

struct Cur<'a> {
    toks: &'a [String],
    i: usize,
    line: usize,
}

impl<'a> Cur<'a> {
    fn here(&self) -> Option<&'a str> {
        self.toks.get(self.i).map(|s| s.as_str())
    }
    fn bump(&mut self) {
        if self.here() == Some("\n") {
            self.line += 1;
        }
        self.i += 1;
    }
    fn take(&mut self) -> Option<&'a str> {
        let t = self.here()?;
        self.bump();
        Some(t)
    }
    fn blank(&mut self) {
        while self.here() == Some("\n") {
            self.bump();
        }
    }
    fn bad<T>(&self, kind: &'static str) -> Result<T, Bad> {
        Err((kind, self.line))
    }
    fn float(&mut self) -> Result<u64, Bad> {
        match self.take() {
            None => self.bad("EndOfFile"),
            Some(t) => match t.parse::<f64>() {
                Ok(x) => Ok(x.to_bits()),
                Err(_) => self.bad("ExpectedFloat"),
            },
        }
    }
    fn maybe_float(&mut self) -> Option<u64> {
        let x = self.here()?.parse::<f64>().ok()?;
        self.bump();
        Some(x.to_bits())
    }
    /// The rest of the line, and the line ending.
    fn rest_of_line(&mut self) -> Vec<String> {
        let mut out = vec![];
        while let Some(t) = self.take() {
            if t == "\n" {
                break;
            }
            out.push(t.to_string());
        }
        out
    }
}

/// Zero-based, within the object.
fn resolve(v: isize, before: usize, here: usize) -> Option<usize> {
    let (v, before, here) = (v as i128, before as i128, here as i128);
    let k = if v > 0 { v - 1 - before } else { here + v };
    if v != 0 && k >= 0 && k < here {
        Some(k as usize)
    } else {
        None
    }
}

type Counts = (usize, usize, usize);

fn index(tok: &str, before: Counts, here: Counts) -> Result<Ix, &'static str> {
    let f: Vec<&str> = tok.split('/').collect();
    let get = |k: usize, b: usize, h: usize| -> Result<Option<usize>, &'static str> {
        match f.get(k) {
            None | Some(&"") => Ok(None),
            Some(s) => {
                let v = s.parse::<isize>().map_err(|_| "ExpectedInteger")?;
                resolve(v, b, h).map(Some).ok_or("VTNIndexOutOfRange")
            }
        }
    };
    let v = get(0, before.0, here.0)?;
    let t = get(1, before.1, here.1)?;
    let n = get(2, before.2, here.2)?;
    match v {
        Some(v) if f.len() <= 3 => Ok((v, t, n)),
        _ => Err("ExpectedVTNIndex"),
    }
}

fn mixed(ix: &[Ix]) -> bool {
    ix.iter().any(|a| a.1.is_some() != ix[0].1.is_some() || a.2.is_some() != ix[0].2.is_some())
}

fn indices(c: &mut Cur, before: Counts, here: Counts) -> Result<Vec<Ix>, Bad> {
    let mut out = vec![];
    while let Some(t) = c.here() {
        if t == "\n" {
            break;
        }
        c.bump();
        match index(t, before, here) {
            Ok(i) => out.push(i),
            Err(k) => return c.bad(k),
        }
    }
    Ok(out)
}

fn object(c: &mut Cur, before: Counts, o: &mut Obj) -> Result<(), Bad> {
    if c.here() == Some("o") {
        c.bump();
        match c.take() {
            None => return c.bad("EndOfFile"),
            Some("\n") => return c.bad("InvalidObjectStatement"),
            Some(n) => o.name = n.to_string(),
        }
        match c.take() {
            None => return c.bad("EndOfFile"),
            Some("\n") => c.blank(),
            Some(_) => return c.bad("ExpectedTagStatement"),
        }
    }
    let mut in_force: (usize, usize) = (0, 0);
    let mut materials: Vec<Option<String>> = vec![];
    let mut first = 0;
    loop {
        let here = (o.v.len(), o.t.len(), o.n.len());
        let tag = match c.here() {
            None | Some("o") => break,
            Some(t) => t,
        };
        match tag {
            "\n" => c.blank(),
            "g" => {
                c.bump();
                let from = o.groups.len();
                o.groups.extend(c.rest_of_line());
                in_force = (from, o.groups.len());
            }
            "s" => {
                c.bump();
                match c.take() {
                    None => return c.bad("SmoothingGroupDeclarationHasNoName"),
                    Some("off") => o.smooth.push(0),
                    Some(t) => match t.parse::<usize>() {
                        Ok(k) => o.smooth.push(k),
                        Err(_) => return c.bad("SmoothingGroupNameMustBeOffOrInteger"),
                    },
                }
            }
            "usemtl" => {
                c.bump();
                match c.take() {
                    None | Some("\n") => return c.bad("MaterialStatementHasNoName"),
                    Some(t) => {
                        if first < o.elems.len() {
                            o.geoms.push((materials.last().unwrap().clone(), (first..o.elems.len()).collect()));
                        }
                        first = o.elems.len();
                        materials.push(Some(t.to_string()));
                    }
                }
            }
            "v" => {
                c.bump();
                let (x, y, z) = (c.float()?, c.float()?, c.float()?);
                let w = c.maybe_float().unwrap_or(1f64.to_bits());
                o.v.push([x, y, z, w]);
            }
            "vt" => {
                c.bump();
                let u = c.float()?;
                let v = c.maybe_float().unwrap_or(0);
                let w = c.maybe_float().unwrap_or(0);
                o.t.push([u, v, w]);
            }
            "vn" => {
                c.bump();
                o.n.push([c.float()?, c.float()?, c.float()?]);
            }
            "p" | "l" | "f" => {
                c.bump();
                if o.groups.is_empty() {
                    o.groups.push("default".to_string());
                    in_force = (0, 1);
                }
                if o.smooth.is_empty() {
                    o.smooth.push(0);
                }
                if materials.is_empty() {
                    materials.push(None);
                }
                let mut made = vec![];
                if tag == "p" {
                    let mut n = 0;
                    loop {
                        match c.take() {
                            None if n == 0 => return c.bad("EndOfFile"),
                            None => break,
                            Some("\n") if n > 0 => break,
                            Some(t) => match t.parse::<isize>() {
                                Err(_) => return c.bad("ExpectedInteger"),
                                Ok(v) => match resolve(v, before.0, here.0) {
                                    None => return c.bad("VTNIndexOutOfRange"),
                                    Some(k) => made.push(El::P((k, None, None))),
                                },
                            },
                        }
                        n += 1;
                    }
                } else if tag == "l" {
                    let mut ix = vec![];
                    for _ in 0..2 {
                        match c.take() {
                            None => return c.bad("EndOfFile"),
                            Some(t) => match index(t, before, here) {
                                Ok(i) => ix.push(i),
                                Err(k) => return c.bad(k),
                            },
                        }
                    }
                    ix.extend(indices(c, before, here)?);
                    if mixed(&ix) {
                        return c.bad("EveryVTNIndexMustHaveTheSameFormForAGivenElement");
                    }
                    made.extend(ix.windows(2).map(|w| El::L(w[0], w[1])));
                } else {
                    let ix = indices(c, before, here)?;
                    if ix.len() < 3 {
                        return c.bad("EveryFaceElementMustHaveAtLeastThreeVertices");
                    }
                    if mixed(&ix) {
                        return c.bad("EveryVTNIndexMustHaveTheSameFormForAGivenElement");
                    }
                    made.extend(ix[1..].windows(2).map(|w| El::F(ix[0], w[0], w[1])));
                }
                for e in made {
                    o.shapes.push((o.elems.len(), (in_force.0..in_force.1).collect(), o.smooth.len() - 1));
                    o.elems.push(e);
                }
            }
            _ => return c.bad("InvalidObjectStatement"),
        }
    }
    if let Some(m) = materials.last() {
        o.geoms.push((m.clone(), (first..o.elems.len()).collect()));
    }
    Ok(())
}

pub fn obj(input: &str) -> Result<Set, Bad> {
    match obj_until(input) {
        (set, None) => Ok(set),
        (_, Some(bad)) => Err(bad),
    }
}

/// What the statements before the first violation say, and the violation.
pub fn obj_until(input: &str) -> (Set, Option<Bad>) {
    let toks = tokens(input);
    let mut c = Cur { toks: &toks, i: 0, line: 1 };
    let mut set = Set::default();
    c.blank();
    while c.here() == Some("mtllib") {
        c.bump();
        set.libs.extend(c.rest_of_line());
        c.blank();
    }
    let mut before = (0, 0, 0);
    while c.here().is_some() {
        let mut o = Obj::default();
        let r = object(&mut c, before, &mut o);
        before = (before.0 + o.v.len(), before.1 + o.t.len(), before.2 + o.n.len());
        set.objects.push(o);
        if let Err(bad) = r {
            return (set, Some(bad));
        }
        c.blank();
    }
    (set, None)
}

const MAPS: [&str; 9] = ["map_Ka", "map_Kd", "map_Ks", "map_Ke", "map_Ns", "bump", "disp", "map_d", "decal"];
const COLORS: [&str; 4] = ["Ka", "Kd", "Ks", "Ke"];

pub fn mtl(input: &str) -> Result<Vec<Mat>, Bad> {
    let toks = tokens(input);
    let mut c = Cur { toks: &toks, i: 0, line: 1 };
    let mut out: Vec<Mat> = vec![];
    fn name(c: &mut Cur) -> Result<String, Bad> {
        match c.take() {
            None => c.bad("EndOfFile"),
            Some("\n") => c.bad("ErrorParsingMaterial"),
            Some(t) => Ok(t.to_string()),
        }
    }
    c.blank();
    while let Some(tag) = c.here() {
        if tag == "newmtl" {
            c.bump();
            let name = name(&mut c)?;
            out.push(Mat { name, colors: [[0; 3]; 4], ns: 0, d: 1f64.to_bits(), ni: None, illum: 2, maps: Default::default() });
        } else {
            let m = match out.last_mut() {
                None => return c.bad("ExpectedEndOfInput"),
                Some(m) => m,
            };
            if let Some(k) = COLORS.iter().position(|t| *t == tag) {
                c.bump();
                m.colors[k] = [c.float()?, c.float()?, c.float()?];
            } else if let Some(k) = MAPS.iter().position(|t| *t == if tag == "map_Bump" { "bump" } else { tag }) {
                c.bump();
                m.maps[k] = Some(name(&mut c)?);
            } else {
                match tag {
                    "Ns" => {
                        c.bump();
                        m.ns = c.float()?;
                    }
                    "d" => {
                        c.bump();
                        m.d = c.float()?;
                    }
                    "Ni" => {
                        c.bump();
                        m.ni = Some(c.float()?);
                    }
                    "illum" => {
                        c.bump();
                        let k = match c.take() {
                            None => return c.bad("EndOfFile"),
                            Some(t) => match t.parse::<usize>() {
                                Err(_) => return c.bad("ExpectedInteger"),
                                Ok(k) => k,
                            },
                        };
                        if k > 2 {
                            return c.bad("UnknownIlluminationModel");
                        }
                        m.illum = k as u8;
                    }
                    _ => return c.bad("ErrorParsingMaterial"),
                }
            }
        }
        c.blank();
    }
    Ok(out)
}
