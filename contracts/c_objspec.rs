pub mod objspec {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use crate::lexspec::*;
use crate::parsespec::*;
use crate::prelude::*;
use crate::obj::*;
verus! {

/// What is specified of an error: its kind and its line.
pub struct Er { pub kind: ErrorKind, pub line: int }

pub open spec fn ev(e: ParseError) -> Er { Er { kind: e.kind, line: e.line_number as int } }

/// The outcome `r` is the one wanted: same success, same value.
pub open spec fn gives<T>(r: Result<T, ParseError>, want: Result<(T, PS), Er>) -> bool {
    r.is_ok() == want.is_ok() && (r is Ok ==> r->Ok_0 == want->Ok_0.0)
}
/// The same tokens are left.
pub open spec fn left<T>(post: PS, want: Result<(T, PS), Er>) -> bool { want is Ok ==> post.t == want->Ok_0.1.t }
/// The error is of the wanted kind.
pub open spec fn kind<R, T>(r: Result<R, ParseError>, want: Result<(T, PS), Er>) -> bool {
    r is Err && want is Err ==> ev(r->Err_0).kind == want->Err_0.kind
}
/// The line count is right, in the state and in the error.
pub open spec fn line<R, T>(r: Result<R, ParseError>, post: PS, want: Result<(T, PS), Er>) -> bool {
    &&& want is Ok ==> post.n == want->Ok_0.1.n
    &&& r is Err && want is Err ==> ev(r->Err_0).line == want->Err_0.line
}

pub open spec fn fail<T>(kind: ErrorKind, s: PS) -> Result<(T, PS), Er> { Err(Er { kind: kind, line: s.n }) }

pub open spec fn s_token(s: PS) -> Result<(Str, PS), Er> {
    if more(s) { Ok((s.t[0], adv(s))) } else { fail(ErrorKind::EndOfFile, s) }
}

pub open spec fn s_tag(s: PS, tag: Str) -> Result<((), PS), Er> {
    if !more(s) { fail(ErrorKind::EndOfFile, s) }
    else if s.t[0] != tag { fail(ErrorKind::ExpectedTagStatement, adv(s)) }
    else { Ok(((), adv(s))) }
}

pub open spec fn s_f64(s: PS) -> Result<(f64, PS), Er> {
    if !more(s) { fail(ErrorKind::EndOfFile, s) }
    else { match parse_spec::<f64>(s.t[0]) { Some(v) => Ok((v, adv(s))), None => fail(ErrorKind::ExpectedFloat, adv(s)) } }
}

pub open spec fn s_isize(s: PS) -> Result<(isize, PS), Er> {
    if !more(s) { fail(ErrorKind::EndOfFile, s) }
    else { match parse_spec::<isize>(s.t[0]) { Some(v) => Ok((v, adv(s))), None => fail(ErrorKind::ExpectedInteger, adv(s)) } }
}

pub open spec fn s_vertex(s: PS) -> Result<(Vertex, PS), Er> {
    match s_tag(s, "v"@) { Err(e) => Err(e), Ok((_, s)) => match s_f64(s) { Err(e) => Err(e), Ok((x, s)) => match s_f64(s) { Err(e) => Err(e), Ok((y, s)) =>
    match s_f64(s) { Err(e) => Err(e), Ok((z, s)) => {
        let (w, s) = opt_f64(s);
        Ok((Vertex { x: x, y: y, z: z, w: if w is Some { w->Some_0 } else { 1.0f64 } }, s))
    } } } } }
}

pub open spec fn s_texture(s: PS) -> Result<(TextureVertex, PS), Er> {
    match s_tag(s, "vt"@) { Err(e) => Err(e), Ok((_, s)) => match s_f64(s) { Err(e) => Err(e), Ok((u, s)) => {
        let (v, s) = opt_f64(s);
        let (w, s) = opt_f64(s);
        Ok((TextureVertex { u: u, v: if v is Some { v->Some_0 } else { 0.0f64 }, w: if w is Some { w->Some_0 } else { 0.0f64 } }, s))
    } } }
}

pub open spec fn s_normal(s: PS) -> Result<(NormalVertex, PS), Er> {
    match s_tag(s, "vn"@) { Err(e) => Err(e), Ok((_, s)) => match s_f64(s) { Err(e) => Err(e), Ok((x, s)) => match s_f64(s) { Err(e) => Err(e), Ok((y, s)) =>
    match s_f64(s) { Err(e) => Err(e), Ok((z, s)) => Ok((NormalVertex { x: x, y: y, z: z }, s)) } } } }
}

pub open spec fn s_newlines(s: PS) -> Result<((), PS), Er> {
    match s_tag(s, nl()) { Err(e) => Err(e), Ok((_, s)) => Ok(((), skip_nl(s))) }
}

/// The name an object statement gives; an object without one has the empty name.
pub open spec fn s_object_name(s: PS) -> Result<(Str, PS), Er> {
    if !at(s, "o"@) { Ok((""@, s)) } else {
        let s = adv(s);
        if at(s, nl()) { fail(ErrorKind::InvalidObjectStatement, adv(s)) }
        else if !more(s) { fail(ErrorKind::EndOfFile, s) }
        else { match s_newlines(adv(s)) { Err(e) => Err(e), Ok((_, s2)) => Ok((s.t[0], s2)) } }
    }
}

pub type Range = (usize, usize);
pub open spec fn range_ok(r: Range) -> bool { r.0 <= r.1 <= isize::MAX }

/// A one-based index counts from the start of the file, a negative one back from the latest entry;
/// the result counts from the start of the object. Anything else is out of range.
pub open spec fn resolve(r: Range, v: int) -> Option<usize> {
    if v >= 1 && r.0 < v <= r.1 { Some((v - 1 - r.0) as usize) }
    else if v < 0 && r.1 + v >= r.0 { Some((r.1 + v - r.0) as usize) }
    else { None }
}

/// One field of a vertex/texture/normal index; an empty field is absent.
pub open spec fn field(f: Str, r: Range) -> Result<Option<usize>, ErrorKind> {
    if f.len() == 0 { Ok(None) } else {
        match parse_spec::<isize>(f) {
            None => Err(ErrorKind::ExpectedInteger),
            Some(v) => match resolve(r, v as int) { None => Err(ErrorKind::VTNIndexOutOfRange), Some(i) => Ok(Some(i)) },
        }
    }
}

pub open spec fn nth_field(fs: Seq<Str>, k: int, r: Range) -> Result<Option<usize>, ErrorKind> {
    if k < fs.len() { field(fs[k], r) } else { Ok(None) }
}

pub open spec fn vtn_of(tok: Str, rv: Range, rt: Range, rn: Range) -> Result<VTNIndex, ErrorKind> {
    let fs = split_on(tok, '/');
    match nth_field(fs, 0, rv) { Err(k) => Err(k), Ok(f1) => match nth_field(fs, 1, rt) { Err(k) => Err(k), Ok(f2) => match nth_field(fs, 2, rn) { Err(k) => Err(k), Ok(f3) =>
        if f1 is None || fs.len() > 3 { Err(ErrorKind::ExpectedVTNIndex) } else {
            Ok(match (f2, f3) {
                (None, None) => VTNIndex::V(f1->Some_0),
                (Some(t), None) => VTNIndex::VT(f1->Some_0, t),
                (None, Some(n)) => VTNIndex::VN(f1->Some_0, n),
                (Some(t), Some(n)) => VTNIndex::VTN(f1->Some_0, t, n),
            })
        }
    } } }
}

pub open spec fn s_vtn(s: PS, rv: Range, rt: Range, rn: Range) -> Result<(VTNIndex, PS), Er> {
    if !more(s) { fail(ErrorKind::EndOfFile, s) }
    else { match vtn_of(s.t[0], rv, rt, rn) { Ok(v) => Ok((v, adv(s))), Err(k) => fail(k, adv(s)) } }
}

/// The indices up to the end of the line, which is left in place.
pub open spec fn s_vtns(s: PS, rv: Range, rt: Range, rn: Range, acc: Seq<VTNIndex>) -> Result<(Seq<VTNIndex>, PS), Er>
    decreases s.t.len(),
{
    if !more(s) || at(s, nl()) { Ok((acc, s)) } else {
        match vtn_of(s.t[0], rv, rt, rn) { Err(k) => fail(k, adv(s)), Ok(v) => s_vtns(adv(s), rv, rt, rn, acc.push(v)) }
    }
}

/// The points up to the end of the line, which is consumed.
pub open spec fn s_more_points(s: PS, rv: Range, acc: Seq<Element>) -> Result<(Seq<Element>, PS), Er>
    decreases s.t.len(),
{
    if !more(s) { Ok((acc, s)) } else if at(s, nl()) { Ok((acc, adv(s))) } else {
        match parse_spec::<isize>(s.t[0]) {
            None => fail(ErrorKind::ExpectedInteger, adv(s)),
            Some(v) => match resolve(rv, v as int) {
                None => fail(ErrorKind::VTNIndexOutOfRange, adv(s)),
                Some(i) => s_more_points(adv(s), rv, acc.push(Element::Point(VTNIndex::V(i)))),
            },
        }
    }
}

pub open spec fn s_points(s: PS, rv: Range, acc: Seq<Element>) -> Result<(Seq<Element>, PS), Er> {
    match s_tag(s, "p"@) { Err(e) => Err(e), Ok((_, s)) => match s_isize(s) { Err(e) => Err(e), Ok((v, s)) => match resolve(rv, v as int) {
        None => fail(ErrorKind::VTNIndexOutOfRange, s),
        Some(i) => s_more_points(s, rv, acc.push(Element::Point(VTNIndex::V(i)))),
    } } }
}

pub open spec fn same_form(a: VTNIndex, b: VTNIndex) -> bool {
    match (a, b) {
        (VTNIndex::V(_), VTNIndex::V(_)) => true,
        (VTNIndex::VT(_, _), VTNIndex::VT(_, _)) => true,
        (VTNIndex::VN(_, _), VTNIndex::VN(_, _)) => true,
        (VTNIndex::VTN(_, _, _), VTNIndex::VTN(_, _, _)) => true,
        _ => false,
    }
}

pub open spec fn one_form(v: Seq<VTNIndex>) -> bool { forall|i: int| 0 <= i < v.len() ==> same_form(#[trigger] v[i], v[0]) }

/// A polygon is the fan of triangles around its first corner.
pub open spec fn fan(v: Seq<VTNIndex>) -> Seq<Element> {
    Seq::new((v.len() - 2) as nat, |i: int| Element::Face(v[0], v[i + 1], v[i + 2]))
}
/// A polyline is its consecutive segments.
pub open spec fn segments(v: Seq<VTNIndex>) -> Seq<Element> {
    Seq::new((v.len() - 1) as nat, |i: int| Element::Line(v[i], v[i + 1]))
}

pub open spec fn s_line(s: PS, rv: Range, rt: Range, rn: Range, acc: Seq<Element>) -> Result<(Seq<Element>, PS), Er> {
    match s_tag(s, "l"@) { Err(e) => Err(e), Ok((_, s)) => match s_vtn(s, rv, rt, rn) { Err(e) => Err(e), Ok((a, s)) => match s_vtn(s, rv, rt, rn) { Err(e) => Err(e), Ok((b, s)) =>
    match s_vtns(s, rv, rt, rn, Seq::empty().push(a).push(b)) { Err(e) => Err(e), Ok((v, s)) =>
        if !one_form(v) { fail(ErrorKind::EveryVTNIndexMustHaveTheSameFormForAGivenElement, s) }
        else { Ok((acc + segments(v), s)) }
    } } } }
}

pub open spec fn s_face(s: PS, rv: Range, rt: Range, rn: Range, acc: Seq<Element>) -> Result<(Seq<Element>, PS), Er> {
    match s_tag(s, "f"@) { Err(e) => Err(e), Ok((_, s)) => match s_vtns(s, rv, rt, rn, Seq::empty()) { Err(e) => Err(e), Ok((v, s)) =>
        if v.len() < 3 { fail(ErrorKind::EveryFaceElementMustHaveAtLeastThreeVertices, s) }
        else if !one_form(v) { fail(ErrorKind::EveryVTNIndexMustHaveTheSameFormForAGivenElement, s) }
        else { Ok((acc + fan(v), s)) }
    } }
}

pub open spec fn s_elements(s: PS, rv: Range, rt: Range, rn: Range, acc: Seq<Element>) -> Result<(Seq<Element>, PS), Er> {
    if at(s, "p"@) { s_points(s, rv, acc) }
    else if at(s, "l"@) { s_line(s, rv, rt, rn, acc) }
    else if at(s, "f"@) { s_face(s, rv, rt, rn, acc) }
    else { fail(ErrorKind::ElementMustBeAPointLineOrFace, s) }
}

pub open spec fn s_groups(s: PS, acc: Seq<Str>) -> Result<(Seq<Str>, PS), Er> {
    match s_tag(s, "g"@) { Err(e) => Err(e), Ok((_, s)) => Ok(words(s, acc)) }
}

pub open spec fn s_smoothing(s: PS) -> Result<(usize, PS), Er> {
    match s_tag(s, "s"@) { Err(e) => Err(e), Ok((_, s)) =>
        if !more(s) { fail(ErrorKind::SmoothingGroupDeclarationHasNoName, s) }
        else if s.t[0] == "off"@ { Ok((0, adv(s))) }
        else { match parse_spec::<usize>(s.t[0]) { Some(k) => Ok((k, adv(s))), None => fail(ErrorKind::SmoothingGroupNameMustBeOffOrInteger, adv(s)) } }
    }
}

pub open spec fn s_material(s: PS) -> Result<(Str, PS), Er> {
    match s_tag(s, "usemtl"@) { Err(e) => Err(e), Ok((_, s)) =>
        if !more(s) { fail(ErrorKind::MaterialStatementHasNoName, s) }
        else if at(s, nl()) { fail(ErrorKind::MaterialStatementHasNoName, adv(s)) }
        else { Ok((s.t[0], adv(s))) }
    }
}

/// The object being read.
pub struct OB {
    pub vs: Seq<Vertex>, pub ts: Seq<TextureVertex>, pub ns: Seq<NormalVertex>,
    pub groups: Seq<Str>,      // all group names so far
    pub glo: int,              // the groups in force are groups[glo..]
    pub smooth: Seq<usize>,    // the smoothing group in force is the last one
    pub mats: Seq<Option<Str>>, // the material in force is the last one
    pub elems: Seq<Element>,
    pub eg: Seq<(usize, usize)>,   // the groups of each element, as a range
    pub es: Seq<usize>,          // the smoothing group of each element
    pub mlo: int,              // the first element with the material in force
    pub geoms: Seq<(Option<Str>, int, int)>, // material, first element, past the last element
}

pub open spec fn empty_ob() -> OB {
    OB { vs: Seq::empty(), ts: Seq::empty(), ns: Seq::empty(), groups: Seq::empty(), glo: 0, smooth: Seq::empty(), mats: Seq::empty(),
         elems: Seq::empty(), eg: Seq::empty(), es: Seq::empty(), mlo: 0, geoms: Seq::empty() }
}

/// How many vertices, texture vertices and normals the objects before have.
pub struct Base { pub v: int, pub t: int, pub n: int }

pub open spec fn rv(b: OB, base: Base) -> Range { (base.v as usize, (base.v + b.vs.len()) as usize) }
pub open spec fn rt(b: OB, base: Base) -> Range { (base.t as usize, (base.t + b.ts.len()) as usize) }
pub open spec fn rn(b: OB, base: Base) -> Range { (base.n as usize, (base.n + b.ns.len()) as usize) }

pub open spec fn with_defaults(b: OB) -> OB {
    OB { groups: if b.groups.len() == 0 { seq!["default"@] } else { b.groups },
         glo: if b.groups.len() == 0 { 0 } else { b.glo },
         smooth: if b.smooth.len() == 0 { seq![0usize] } else { b.smooth },
         mats: if b.mats.len() == 0 { seq![None] } else { b.mats },
         ..b }
}

pub open spec fn add_elements(b: OB, es: Seq<Element>) -> OB {
    let k = (es.len() - b.elems.len()) as nat;
    OB { elems: es,
         eg: b.eg + Seq::new(k, |i: int| (b.glo as usize, b.groups.len() as usize)),
         es: b.es + Seq::new(k, |i: int| (b.smooth.len() - 1) as usize),
         ..b }
}

pub open spec fn close_geometry(b: OB) -> Seq<(Option<Str>, int, int)> {
    b.geoms.push((b.mats.last(), b.mlo, b.elems.len() as int))
}

pub open spec fn use_material(b: OB, name: Str) -> OB {
    OB { geoms: if b.mlo < b.elems.len() { close_geometry(b) } else { b.geoms },
         mats: b.mats.push(Some(name)),
         mlo: b.elems.len() as int,
         ..b }
}

pub open spec fn at_element(s: PS) -> bool { at(s, "p"@) || at(s, "l"@) || at(s, "f"@) }

/// One statement of an object.
pub open spec fn step(s: PS, b: OB, base: Base) -> Result<(OB, PS), Er> {
    if at(s, "g"@) {
        match s_groups(s, b.groups) { Err(e) => Err(e), Ok((g, s)) => Ok((OB { groups: g, glo: b.groups.len() as int, ..b }, s)) }
    } else if at(s, "s"@) {
        match s_smoothing(s) { Err(e) => Err(e), Ok((k, s)) => Ok((OB { smooth: b.smooth.push(k), ..b }, s)) }
    } else if at(s, "usemtl"@) {
        match s_material(s) { Err(e) => Err(e), Ok((name, s)) => Ok((use_material(b, name), s)) }
    } else if at(s, "v"@) {
        match s_vertex(s) { Err(e) => Err(e), Ok((v, s)) => Ok((OB { vs: b.vs.push(v), ..b }, s)) }
    } else if at(s, "vt"@) {
        match s_texture(s) { Err(e) => Err(e), Ok((v, s)) => Ok((OB { ts: b.ts.push(v), ..b }, s)) }
    } else if at(s, "vn"@) {
        match s_normal(s) { Err(e) => Err(e), Ok((v, s)) => Ok((OB { ns: b.ns.push(v), ..b }, s)) }
    } else if at_element(s) {
        match s_elements(s, rv(b, base), rt(b, base), rn(b, base), b.elems) { Err(e) => Err(e), Ok((es, s)) => Ok((add_elements(with_defaults(b), es), s)) }
    } else if at(s, nl()) {
        Ok((b, skip_nl(s)))
    } else {
        fail(ErrorKind::InvalidObjectStatement, s)
    }
}

pub open spec fn object_ends(s: PS) -> bool { !more(s) || at(s, "o"@) }

pub open spec fn body(s: PS, b: OB, base: Base) -> Result<(OB, PS), Er>
    decreases s.t.len(),
{
    if object_ends(s) { Ok((b, s)) } else {
        match step(s, b, base) { Err(e) => Err(e), Ok((b2, s2)) => if s2.t.len() < s.t.len() { body(s2, b2, base) } else { arbitrary() } }
    }
}

pub proof fn lemma_vtns(s: PS, rv: Range, rt: Range, rn: Range, acc: Seq<VTNIndex>)
    requires s_vtns(s, rv, rt, rn, acc) is Ok,
    ensures s_vtns(s, rv, rt, rn, acc)->Ok_0.1.t.len() <= s.t.len(),
        s_vtns(s, rv, rt, rn, acc)->Ok_0.0.len() >= acc.len(),
        s_vtns(s, rv, rt, rn, acc)->Ok_0.0.len() + s_vtns(s, rv, rt, rn, acc)->Ok_0.1.t.len() <= acc.len() + s.t.len(),
    decreases s.t.len(),
{
    if !more(s) || at(s, nl()) {} else {
        match vtn_of(s.t[0], rv, rt, rn) { Err(k) => {}, Ok(v) => { lemma_vtns(adv(s), rv, rt, rn, acc.push(v)); } }
    }
}

pub proof fn lemma_more_points(s: PS, rv: Range, acc: Seq<Element>)
    requires s_more_points(s, rv, acc) is Ok,
    ensures s_more_points(s, rv, acc)->Ok_0.1.t.len() <= s.t.len(),
        s_more_points(s, rv, acc)->Ok_0.0.len() >= acc.len(),
        s_more_points(s, rv, acc)->Ok_0.0.len() + s_more_points(s, rv, acc)->Ok_0.1.t.len() <= acc.len() + s.t.len(),
        s_more_points(s, rv, acc)->Ok_0.0.subrange(0, acc.len() as int) =~= acc,
    decreases s.t.len(),
{
    if !more(s) || at(s, nl()) {} else {
        match parse_spec::<isize>(s.t[0]) { None => {}, Some(v) => match resolve(rv, v as int) { None => {}, Some(i) => {
            let acc2 = acc.push(Element::Point(VTNIndex::V(i)));
            lemma_more_points(adv(s), rv, acc2);
            let r = s_more_points(s, rv, acc)->Ok_0.0;
            assert(r.subrange(0, acc.len() as int) =~= r.subrange(0, acc2.len() as int).subrange(0, acc.len() as int));
        } } }
    }
}

/// An element statement consumes tokens, and adds elements after the ones there are.
pub proof fn lemma_elements(s: PS, rv: Range, rt: Range, rn: Range, acc: Seq<Element>)
    requires s_elements(s, rv, rt, rn, acc) is Ok,
    ensures s_elements(s, rv, rt, rn, acc)->Ok_0.1.t.len() < s.t.len(),
        s_elements(s, rv, rt, rn, acc)->Ok_0.0.len() >= acc.len(),
        s_elements(s, rv, rt, rn, acc)->Ok_0.0.len() + s_elements(s, rv, rt, rn, acc)->Ok_0.1.t.len() <= acc.len() + s.t.len(),
        s_elements(s, rv, rt, rn, acc)->Ok_0.0.subrange(0, acc.len() as int) =~= acc,
{
    if at(s, "p"@) {
        let s1 = adv(s);
        let i = resolve(rv, s_isize(s1)->Ok_0.0 as int)->Some_0;
        let acc2 = acc.push(Element::Point(VTNIndex::V(i)));
        lemma_more_points(adv(s1), rv, acc2);
        let r = s_more_points(adv(s1), rv, acc2)->Ok_0.0;
        assert(r.subrange(0, acc.len() as int) =~= r.subrange(0, acc2.len() as int).subrange(0, acc.len() as int));
    } else if at(s, "l"@) {
        let s1 = adv(s);
        let (a, s2) = s_vtn(s1, rv, rt, rn)->Ok_0;
        let (b, s3) = s_vtn(s2, rv, rt, rn)->Ok_0;
        lemma_vtns(s3, rv, rt, rn, Seq::empty().push(a).push(b));
    } else if at(s, "f"@) {
        lemma_vtns(adv(s), rv, rt, rn, Seq::empty());
    }
}

/// A statement consumes tokens; the data it adds is no more than the tokens it consumes.
pub proof fn lemma_step(s: PS, b: OB, base: Base)
    requires step(s, b, base) is Ok,
    ensures ({
        let (b2, s2) = step(s, b, base)->Ok_0;
        &&& s2.t.len() < s.t.len()
        &&& b2.vs.len() + s2.t.len() <= b.vs.len() + s.t.len()
        &&& b2.ts.len() + s2.t.len() <= b.ts.len() + s.t.len()
        &&& b2.ns.len() + s2.t.len() <= b.ns.len() + s.t.len()
        &&& b2.groups.len() + s2.t.len() <= b.groups.len() + s.t.len()
        &&& b2.smooth.len() + s2.t.len() <= b.smooth.len() + s.t.len()
        &&& b2.mats.len() + s2.t.len() <= b.mats.len() + s.t.len()
        &&& b2.elems.len() + s2.t.len() <= b.elems.len() + s.t.len()
        &&& b2.elems.len() >= b.elems.len()
    }),
{
    if at(s, "g"@) { lemma_words(adv(s), b.groups); }
    else if at(s, "s"@) {}
    else if at(s, "usemtl"@) {}
    else if at(s, "v"@) {}
    else if at(s, "vt"@) {}
    else if at(s, "vn"@) {}
    else if at_element(s) { lemma_elements(s, rv(b, base), rt(b, base), rn(b, base), b.elems); }
    else if at(s, nl()) { lemma_skip_nl(adv(s)); }
}

// What the caller sees of an object.
pub struct ShapeV { pub element: int, pub groups: Seq<usize>, pub smoothing: int }
pub struct GeomV { pub material: Option<Str>, pub shapes: Seq<usize> }
pub struct ObjV {
    pub name: Str, pub vs: Seq<Vertex>, pub ts: Seq<TextureVertex>, pub ns: Seq<NormalVertex>, pub groups: Seq<Str>, pub smooth: Seq<usize>,
    pub elems: Seq<Element>, pub shapes: Seq<ShapeV>, pub geoms: Seq<GeomV>,
}

pub open spec fn upto(lo: int, hi: int) -> Seq<usize> { Seq::new((hi - lo) as nat, |i: int| (lo + i) as usize) }

pub open spec fn all_geoms(b: OB) -> Seq<(Option<Str>, int, int)> { if b.mats.len() > 0 { close_geometry(b) } else { b.geoms } }

pub open spec fn finish(name: Str, b: OB) -> ObjV {
    ObjV { name: name, vs: b.vs, ts: b.ts, ns: b.ns, groups: b.groups, smooth: b.smooth, elems: b.elems,
        shapes: Seq::new(b.elems.len(), |i: int| ShapeV { element: i, groups: upto(b.eg[i].0 as int, b.eg[i].1 as int), smoothing: b.es[i] as int }),
        geoms: all_geoms(b).map_values(|g: (Option<Str>, int, int)| GeomV { material: g.0, shapes: upto(g.1, g.2) }) }
}

pub open spec fn s_object(s: PS, base: Base) -> Result<((ObjV, Base), PS), Er> {
    match s_object_name(s) { Err(e) => Err(e), Ok((name, s)) => match body(s, empty_ob(), base) { Err(e) => Err(e), Ok((b, s)) =>
        Ok(((finish(name, b), Base { v: base.v + b.vs.len(), t: base.t + b.ts.len(), n: base.n + b.ns.len() }), s)) } }
}

pub open spec fn s_objects(s: PS, base: Base, acc: Seq<ObjV>) -> Result<(Seq<ObjV>, PS), Er>
    decreases s.t.len(),
{
    if !more(s) { Ok((acc, s)) } else {
        match s_object(s, base) { Err(e) => Err(e), Ok(((o, base2), s2)) => { let s3 = skip_nl(s2); if s3.t.len() < s.t.len() { s_objects(s3, base2, acc.push(o)) } else { arbitrary() } } }
    }
}

pub open spec fn s_libs(s: PS, acc: Seq<Str>) -> (Seq<Str>, PS)
    decreases s.t.len(),
{
    if !at(s, "mtllib"@) { (acc, s) } else {
        let (names, s2) = words(adv(s), acc);
        let s3 = skip_nl(s2);
        if s3.t.len() < s.t.len() { s_libs(s3, names) } else { arbitrary() }
    }
}

/// The tags are different words.
pub proof fn lemma_tags()
    ensures
        "g"@ != "s"@,
        "g"@ != "usemtl"@,
        "g"@ != "v"@,
        "g"@ != "vt"@,
        "g"@ != "vn"@,
        "g"@ != "p"@,
        "g"@ != "l"@,
        "g"@ != "f"@,
        "g"@ != "o"@,
        "g"@ != "\n"@,
        "g"@ != "mtllib"@,
        "s"@ != "usemtl"@,
        "s"@ != "v"@,
        "s"@ != "vt"@,
        "s"@ != "vn"@,
        "s"@ != "p"@,
        "s"@ != "l"@,
        "s"@ != "f"@,
        "s"@ != "o"@,
        "s"@ != "\n"@,
        "s"@ != "mtllib"@,
        "usemtl"@ != "v"@,
        "usemtl"@ != "vt"@,
        "usemtl"@ != "vn"@,
        "usemtl"@ != "p"@,
        "usemtl"@ != "l"@,
        "usemtl"@ != "f"@,
        "usemtl"@ != "o"@,
        "usemtl"@ != "\n"@,
        "usemtl"@ != "mtllib"@,
        "v"@ != "vt"@,
        "v"@ != "vn"@,
        "v"@ != "p"@,
        "v"@ != "l"@,
        "v"@ != "f"@,
        "v"@ != "o"@,
        "v"@ != "\n"@,
        "v"@ != "mtllib"@,
        "vt"@ != "vn"@,
        "vt"@ != "p"@,
        "vt"@ != "l"@,
        "vt"@ != "f"@,
        "vt"@ != "o"@,
        "vt"@ != "\n"@,
        "vt"@ != "mtllib"@,
        "vn"@ != "p"@,
        "vn"@ != "l"@,
        "vn"@ != "f"@,
        "vn"@ != "o"@,
        "vn"@ != "\n"@,
        "vn"@ != "mtllib"@,
        "p"@ != "l"@,
        "p"@ != "f"@,
        "p"@ != "o"@,
        "p"@ != "\n"@,
        "p"@ != "mtllib"@,
        "l"@ != "f"@,
        "l"@ != "o"@,
        "l"@ != "\n"@,
        "l"@ != "mtllib"@,
        "f"@ != "o"@,
        "f"@ != "\n"@,
        "f"@ != "mtllib"@,
        "o"@ != "\n"@,
        "o"@ != "mtllib"@,
        "\n"@ != "mtllib"@,
{
    reveal_strlit("g");
    reveal_strlit("s");
    reveal_strlit("usemtl");
    reveal_strlit("v");
    reveal_strlit("vt");
    reveal_strlit("vn");
    reveal_strlit("p");
    reveal_strlit("l");
    reveal_strlit("f");
    reveal_strlit("o");
    reveal_strlit("\n");
    reveal_strlit("mtllib");
    assert("g"@.len() == 1 && "g"@[0] == 'g');
    assert("s"@.len() == 1 && "s"@[0] == 's');
    assert("usemtl"@.len() == 6 && "usemtl"@[0] == 'u' && "usemtl"@[1] == 's');
    assert("v"@.len() == 1 && "v"@[0] == 'v');
    assert("vt"@.len() == 2 && "vt"@[0] == 'v' && "vt"@[1] == 't');
    assert("vn"@.len() == 2 && "vn"@[0] == 'v' && "vn"@[1] == 'n');
    assert("p"@.len() == 1 && "p"@[0] == 'p');
    assert("l"@.len() == 1 && "l"@[0] == 'l');
    assert("f"@.len() == 1 && "f"@[0] == 'f');
    assert("o"@.len() == 1 && "o"@[0] == 'o');
    assert("\n"@.len() == 1 && "\n"@[0] == '\n');
    assert("mtllib"@.len() == 6 && "mtllib"@[0] == 'm' && "mtllib"@[1] == 't');
}

pub proof fn lemma_body_step(s: PS, b: OB, base: Base)
    requires !object_ends(s),
    ensures step(s, b, base) is Err ==> body(s, b, base) is Err && body(s, b, base)->Err_0 == step(s, b, base)->Err_0,
        step(s, b, base) is Ok ==> body(s, b, base) == body(step(s, b, base)->Ok_0.1, step(s, b, base)->Ok_0.0, base),
{
    if step(s, b, base) is Ok { lemma_step(s, b, base); }
}
pub proof fn lemma_body_end(s: PS, b: OB, base: Base)
    requires object_ends(s),
    ensures body(s, b, base) == Ok::<(OB, PS), Er>((b, s)),
{}
pub proof fn lemma_object_name(s: PS)
    requires s_object_name(s) is Ok,
    ensures s_object_name(s)->Ok_0.1.t.len() <= s.t.len(),
{
    if at(s, "o"@) { lemma_skip_nl(adv(adv(adv(s)))); }
}

pub proof fn lemma_object_of(s: PS, base: Base)
    ensures
        s_object_name(s) is Err ==> s_object(s, base) is Err && s_object(s, base)->Err_0 == s_object_name(s)->Err_0,
        s_object_name(s) is Ok && body(s_object_name(s)->Ok_0.1, empty_ob(), base) is Err
            ==> s_object(s, base) is Err && s_object(s, base)->Err_0 == body(s_object_name(s)->Ok_0.1, empty_ob(), base)->Err_0,
        s_object_name(s) is Ok && body(s_object_name(s)->Ok_0.1, empty_ob(), base) is Ok ==> {
            let b = body(s_object_name(s)->Ok_0.1, empty_ob(), base)->Ok_0.0;
            s_object(s, base) == Ok::<((ObjV, Base), PS), Er>(((finish(s_object_name(s)->Ok_0.0, b), Base { v: base.v + b.vs.len(), t: base.t + b.ts.len(), n: base.n + b.ns.len() }), body(s_object_name(s)->Ok_0.1, empty_ob(), base)->Ok_0.1))
        },
{}

/// An object consumes tokens.
pub proof fn lemma_body(s: PS, b: OB, base: Base)
    requires body(s, b, base) is Ok,
    ensures body(s, b, base)->Ok_0.1.t.len() <= s.t.len(), object_ends(body(s, b, base)->Ok_0.1),
        !object_ends(s) ==> body(s, b, base)->Ok_0.1.t.len() < s.t.len(),
    decreases s.t.len(),
{
    if !object_ends(s) {
        lemma_step(s, b, base);
        let (b2, s2) = step(s, b, base)->Ok_0;
        lemma_body(s2, b2, base);
    }
}
pub proof fn lemma_object(s: PS, base: Base)
    requires s_object(s, base) is Ok, more(s),
    ensures s_object(s, base)->Ok_0.1.t.len() < s.t.len(),
{
    let s1 = s_object_name(s)->Ok_0.1;
    if at(s, "o"@) { lemma_skip_nl(adv(adv(adv(s)))); }
    lemma_body(s1, empty_ob(), base);
}

pub struct SetV { pub libs: Seq<Str>, pub objects: Seq<ObjV> }

pub open spec fn s_set(s: PS) -> Result<(SetV, PS), Er> {
    let (libs, s) = s_libs(skip_nl(s), Seq::empty());
    match s_objects(skip_nl(s), Base { v: 0, t: 0, n: 0 }, Seq::empty()) { Err(e) => Err(e), Ok((o, s)) => Ok((SetV { libs: libs, objects: o }, s)) }
}

// Views of what the parser returns.
pub open spec fn strs(v: Seq<String>) -> Seq<Str> { v.map_values(|s: String| s@) }
pub open spec fn group_names(v: Seq<Group>) -> Seq<Str> { v.map_values(|g: Group| g.0@) }
pub open spec fn smooth_names(v: Seq<SmoothingGroup>) -> Seq<usize> { v.map_values(|g: SmoothingGroup| g.0) }
pub open spec fn opt_str(o: Option<&str>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn opt_string(o: Option<String>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn opt_strs(v: Seq<Option<&str>>) -> Seq<Option<Str>> { v.map_values(|s: Option<&str>| opt_str(s)) }
pub open spec fn shape_v(s: ShapeEntry) -> ShapeV { ShapeV { element: s.element as int, groups: s.groups@, smoothing: s.smoothing_group as int } }
pub open spec fn geom_v(g: Geometry) -> GeomV { GeomV { material: opt_string(g.material_name), shapes: g.shapes@ } }
pub open spec fn shapes_v(v: Seq<ShapeEntry>) -> Seq<ShapeV> { v.map_values(|s: ShapeEntry| shape_v(s)) }
pub open spec fn geoms_v(v: Seq<Geometry>) -> Seq<GeomV> { v.map_values(|g: Geometry| geom_v(g)) }
pub open spec fn obj_v(o: Object) -> ObjV {
    ObjV { name: o.name@, vs: o.vertex_set@, ts: o.texture_vertex_set@, ns: o.normal_vertex_set@, groups: group_names(o.group_set@),
        smooth: smooth_names(o.smoothing_group_set@), elems: o.element_set@,
        shapes: shapes_v(o.shape_set@), geoms: geoms_v(o.geometry_set@) }
}
pub open spec fn objs_v(v: Seq<Object>) -> Seq<ObjV> { v.map_values(|o: Object| obj_v(o)) }
pub open spec fn set_v(s: ObjectSet) -> SetV { SetV { libs: strs(s.material_libraries@), objects: objs_v(s.objects@) } }

// Tables of consecutive element ranges.
pub open spec fn tiles<X>(t: Seq<((usize, usize), X)>, n: int) -> bool {
    &&& forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).0.0 <= t[k].0.1 <= n
    &&& forall|j: int, k: int| 0 <= j < t.len() && 0 <= k < t.len() && k == j + 1 ==> (#[trigger] t[k]).0.0 == (#[trigger] t[j]).0.1
    &&& t.len() > 0 ==> t[0].0.0 == 0
    &&& n == (if t.len() == 0 { 0 } else { t.last().0.1 as int })
}

/// The table gives element `i` the value `f[i]`.
pub open spec fn covers<X>(t: Seq<((usize, usize), X)>, f: Seq<X>) -> bool {
    &&& tiles(t, f.len() as int)
    &&& forall|k: int, i: int| 0 <= k < t.len() && (#[trigger] t[k]).0.0 <= i < t[k].0.1 ==> #[trigger] f[i] == t[k].1
}

/// The entry for the elements still being read can grow.
pub proof fn lemma_covers_extend<X>(t: Seq<((usize, usize), X)>, lo: usize, hi: usize, hi2: usize, x: X, y: X, f: Seq<X>, f2: Seq<X>)
    requires covers(t.push(((lo, hi), x)), f), hi <= hi2, f2.len() == hi2, f.len() == 0 || x == y,
        forall|i: int| 0 <= i < f.len() ==> f2[i] == f[i], forall|i: int| f.len() <= i < hi2 ==> f2[i] == y,
    ensures covers(t.push(((lo, hi2), y)), f2),
{
    let a = t.push(((lo, hi), x)); let b = t.push(((lo, hi2), y));
    assert(a.last() == ((lo, hi), x));
    assert(a[t.len() as int] == ((lo, hi), x));
    assert(f.len() == hi && lo <= hi);
    assert forall|k: int| 0 <= k < t.len() implies (#[trigger] b[k]) == a[k] by {}
    assert(b[0].0.0 == a[0].0.0);
    assert forall|k: int, i: int| 0 <= k < b.len() && (#[trigger] b[k]).0.0 <= i < b[k].0.1 implies #[trigger] f2[i] == b[k].1 by {
        if k < t.len() { assert(a[k] == b[k]); assert(f[i] == a[k].1); } else { if i < hi { assert(a[k].0.0 <= i < a[k].0.1); assert(f[i] == x); } }
    }
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < b.len() && k == j + 1 implies (#[trigger] b[k]).0.0 == (#[trigger] b[j]).0.1 by {
        assert(a[k].0.0 == a[j].0.1);
    }
}

pub proof fn lemma_covers_start<X>(x: X)
    ensures covers(Seq::empty().push(((0usize, 0usize), x)), Seq::empty()),
{}
pub proof fn lemma_covers_tiles<X>(t: Seq<((usize, usize), X)>, f: Seq<X>)
    requires covers(t, f),
    ensures tiles(t, f.len() as int),
{}

/// A finished entry is followed by an empty one.
pub proof fn lemma_covers_push<X>(t: Seq<((usize, usize), X)>, lo: usize, hi: usize, x: X, y: X, f: Seq<X>)
    requires covers(t.push(((lo, hi), x)), f),
    ensures covers(t.push(((lo, hi), x)).push(((hi, hi), y)), f),
{
    let a = t.push(((lo, hi), x)); let b = a.push(((hi, hi), y));
    assert(a.last() == ((lo, hi), x));
    assert(b[0].0.0 == a[0].0.0);
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] b[k]) == a[k] by {}
    assert forall|j: int, k: int| 0 <= j < b.len() && 0 <= k < b.len() && k == j + 1 implies (#[trigger] b[k]).0.0 == (#[trigger] b[j]).0.1 by {
        if k < a.len() { assert(a[k].0.0 == a[j].0.1); } else { assert(b[j] == a.last()); }
    }
}

/// Entries are in order.
pub proof fn lemma_tiles_order<X>(t: Seq<((usize, usize), X)>, n: int)
    requires tiles(t, n),
    ensures forall|j: int, k: int| 0 <= j < k < t.len() ==> (#[trigger] t[j]).0.1 <= (#[trigger] t[k]).0.0,
{
    assert forall|j: int, k: int| 0 <= j < k < t.len() implies (#[trigger] t[j]).0.1 <= (#[trigger] t[k]).0.0 by { lemma_tiles_order_at(t, n, j, k); }
}
proof fn lemma_tiles_order_at<X>(t: Seq<((usize, usize), X)>, n: int, j: int, k: int)
    requires tiles(t, n), 0 <= j < k < t.len(),
    ensures t[j].0.1 <= t[k].0.0,
    decreases k,
{
    assert(t[k].0.0 == t[k - 1].0.1);
    if j < k - 1 { lemma_tiles_order_at(t, n, j, k - 1); }
}

/// Every element is in some entry.
pub proof fn lemma_covered<X>(t: Seq<((usize, usize), X)>, n: int, i: int) -> (k: int)
    requires tiles(t, n), 0 <= i < n,
    ensures 0 <= k < t.len(), t[k].0.0 <= i < t[k].0.1,
{
    lemma_covered_below(t, n, i, t.len() as int)
}
proof fn lemma_covered_below<X>(t: Seq<((usize, usize), X)>, n: int, i: int, m: int) -> (k: int)
    requires tiles(t, n), 0 <= i < n, 0 < m <= t.len(), i < t[m - 1].0.1,
    ensures 0 <= k < t.len(), t[k].0.0 <= i < t[k].0.1,
    decreases m,
{
    if t[m - 1].0.0 <= i { m - 1 } else { assert(m - 1 > 0); assert(t[m - 1].0.0 == t[m - 2].0.1); lemma_covered_below(t, n, i, m - 1) }
}

pub open spec fn in_group(e: ShapeEntry, i: int, g: (usize, usize)) -> bool { e.element == i && e.groups@ == upto(g.0 as int, g.1 as int) }

/// The first `m` ranges of the table have been turned into shapes.
pub open spec fn shapes_of_groups(v: Seq<ShapeEntry>, t: Seq<((usize, usize), (usize, usize))>, m: int) -> bool {
    forall|k: int, i: int| 0 <= k < m && (#[trigger] t[k]).0.0 <= i < t[k].0.1 ==> in_group(#[trigger] v[i], i, t[k].1)
}
pub open spec fn shapes_of_smoothing(v: Seq<ShapeEntry>, t: Seq<((usize, usize), usize)>, m: int) -> bool {
    forall|k: int, i: int| 0 <= k < m && (#[trigger] t[k]).0.0 <= i < t[k].0.1 ==> (#[trigger] v[i]).smoothing_group == t[k].1
}
pub open spec fn geom_of(e: ((usize, usize), usize), mats: Seq<Option<Str>>) -> GeomV {
    GeomV { material: mats[e.1 as int], shapes: upto(e.0.0 as int, e.0.1 as int) }
}

pub open spec fn geoms_match(t: Seq<((usize, usize), usize)>, mats: Seq<Option<Str>>, g: Seq<(Option<Str>, int, int)>) -> bool {
    &&& t.len() == g.len()
    &&& forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).1 < mats.len() && t[k].0.0 <= t[k].0.1
    &&& forall|k: int| 0 <= k < t.len() ==> (#[trigger] g[k]) == (mats[t[k].1 as int], t[k].0.0 as int, t[k].0.1 as int)
}
pub proof fn lemma_geoms_start(mats: Seq<Option<Str>>)
    ensures geoms_match(Seq::empty(), mats, Seq::empty()),
{}
/// More materials change nothing for the geometries there are, and another one can follow.
pub proof fn lemma_geoms_grow(t: Seq<((usize, usize), usize)>, mats: Seq<Option<Str>>, mats2: Seq<Option<Str>>, g: Seq<(Option<Str>, int, int)>, lo: usize, hi: usize, i: usize)
    requires geoms_match(t, mats, g), mats.len() <= mats2.len(), forall|k: int| 0 <= k < mats.len() ==> mats[k] == mats2[k],
    ensures geoms_match(t, mats2, g),
        lo <= hi && i < mats2.len() ==> geoms_match(t.push(((lo, hi), i)), mats2, g.push((mats2[i as int], lo as int, hi as int))),
{}
pub proof fn lemma_geoms_indices(t: Seq<((usize, usize), usize)>, mats: Seq<Option<Str>>, g: Seq<(Option<Str>, int, int)>)
    requires geoms_match(t, mats, g),
    ensures forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).1 < mats.len() && t[k].0.0 <= t[k].0.1,
{}
pub open spec fn last_index(n: nat) -> int { if n == 0 { 0 } else { n - 1 } }

/// The shapes and geometries made from the tables are the ones wanted.
pub proof fn lemma_finish_shapes(name: Str, b: OB, gt: Seq<((usize, usize), (usize, usize))>, st: Seq<((usize, usize), usize)>, v: Seq<ShapeEntry>)
    requires covers(gt, b.eg), covers(st, b.es), b.eg.len() == b.elems.len(), b.es.len() == b.elems.len(), v.len() == b.elems.len(),
        shapes_of_groups(v, gt, gt.len() as int), shapes_of_smoothing(v, st, st.len() as int),
    ensures shapes_v(v) == finish(name, b).shapes,
{
    assert forall|i: int| 0 <= i < v.len() implies shape_v(#[trigger] v[i]) == finish(name, b).shapes[i] by {
        let k = lemma_covered(gt, b.eg.len() as int, i);
        let k2 = lemma_covered(st, b.es.len() as int, i);
        assert(in_group(v[i], i, gt[k].1)); assert(b.eg[i] == gt[k].1);
        assert(v[i].smoothing_group == st[k2].1); assert(b.es[i] == st[k2].1);
    }
    assert(shapes_v(v) =~= finish(name, b).shapes);
}
pub proof fn lemma_finish(name: Str, b: OB)
    ensures ({ let o = finish(name, b); o.name == name && o.vs == b.vs && o.ts == b.ts && o.ns == b.ns && o.groups == b.groups && o.smooth == b.smooth && o.elems == b.elems }),
{}
pub proof fn lemma_finish_geoms(name: Str, b: OB, t: Seq<((usize, usize), usize)>, v: Seq<Geometry>)
    requires geoms_match(t, b.mats, all_geoms(b)), v.len() == t.len(),
        forall|k: int| 0 <= k < t.len() ==> geom_v(#[trigger] v[k]) == geom_of(t[k], b.mats),
    ensures geoms_v(v) == finish(name, b).geoms,
{
    assert forall|i: int| 0 <= i < v.len() implies geom_v(#[trigger] v[i]) == finish(name, b).geoms[i] by {
        assert(all_geoms(b)[i] == (b.mats[t[i].1 as int], t[i].0.0 as int, t[i].0.1 as int));
    }
    assert(geoms_v(v) =~= finish(name, b).geoms);
}

pub broadcast proof fn lemma_push_group(v: Seq<Group>, g: Group)
    ensures #[trigger] group_names(v.push(g)) == group_names(v).push(g.0@),
{ assert(group_names(v.push(g)) =~= group_names(v).push(g.0@)); }
pub broadcast proof fn lemma_push_smooth(v: Seq<SmoothingGroup>, g: SmoothingGroup)
    ensures #[trigger] smooth_names(v.push(g)) == smooth_names(v).push(g.0),
{ assert(smooth_names(v.push(g)) =~= smooth_names(v).push(g.0)); }
pub broadcast proof fn lemma_push_opt_str(v: Seq<Option<&str>>, g: Option<&str>)
    ensures #[trigger] opt_strs(v.push(g)) == opt_strs(v).push(opt_str(g)),
{ assert(opt_strs(v.push(g)) =~= opt_strs(v).push(opt_str(g))); }
pub broadcast proof fn lemma_push_str(v: Seq<String>, g: String)
    ensures #[trigger] strs(v.push(g)) == strs(v).push(g@),
{ assert(strs(v.push(g)) =~= strs(v).push(g@)); }

pub broadcast proof fn lemma_push_obj(v: Seq<Object>, g: Object)
    ensures #[trigger] objs_v(v.push(g)) == objs_v(v).push(obj_v(g)),
{ assert(objs_v(v.push(g)) =~= objs_v(v).push(obj_v(g))); }

} // verus!
}
