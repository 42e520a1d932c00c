pub mod mtlspec {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use crate::lexspec::*;
use crate::parsespec::*;
use crate::prelude::*;
use crate::mtl::*;
verus! {

/// What is specified of an error: its kind and its line.
pub struct Er { pub kind: ErrorKind, pub line: int }

pub open spec fn ev(e: ParseError) -> Er { Er { kind: error_kind(e), line: error_line(e) } }

/// The outcome `r` is the one wanted: same success, same value.
pub open spec fn gives<T>(r: Result<T, ParseError>, want: Result<(T, PS), Er>) -> bool {
    r.is_ok() == want.is_ok() && (r is Ok ==> r->Ok_0 == want->Ok_0.0)
}
/// The same tokens are left.
pub open spec fn left<T>(post: PS, want: Result<(T, PS), Er>) -> bool { want is Ok ==> post.t == want->Ok_0.1.t }
/// The error is of the wanted kind.
pub open spec fn kind<R, T>(r: Result<R, ParseError>, want: Result<(T, PS), Er>) -> bool {
    r is Err && want is Err ==> ev(r->Err_0).kind == want->Err_0.kind
}
/// The line count is right, in the state and in the error.
pub open spec fn line<R, T>(r: Result<R, ParseError>, post: PS, want: Result<(T, PS), Er>) -> bool {
    &&& want is Ok ==> post.n == want->Ok_0.1.n
    &&& r is Err && want is Err ==> ev(r->Err_0).line == want->Err_0.line
}

pub open spec fn fail<T>(kind: ErrorKind, s: PS) -> Result<(T, PS), Er> { Err(Er { kind: kind, line: s.n }) }

pub open spec fn s_token(s: PS) -> Result<(Str, PS), Er> {
    if more(s) { Ok((s.t[0], adv(s))) } else { fail(ErrorKind::EndOfFile, s) }
}

pub open spec fn s_name(s: PS) -> Result<(Str, PS), Er> {
    if !more(s) { fail(ErrorKind::EndOfFile, s) }
    else if at(s, nl()) { fail(ErrorKind::ErrorParsingMaterial, adv(s)) }
    else { Ok((s.t[0], adv(s))) }
}

pub open spec fn s_tag(s: PS, tag: Str) -> Result<((), PS), Er> {
    if !more(s) { fail(ErrorKind::EndOfFile, s) }
    else if s.t[0] != tag { fail(ErrorKind::ExpectedTagStatement, adv(s)) }
    else { Ok(((), adv(s))) }
}

pub open spec fn s_f64(s: PS) -> Result<(f64, PS), Er> {
    if !more(s) { fail(ErrorKind::EndOfFile, s) }
    else { match parse_spec::<f64>(s.t[0]) { Some(v) => Ok((v, adv(s))), None => fail(ErrorKind::ExpectedFloat, adv(s)) } }
}

pub open spec fn s_usize(s: PS) -> Result<(usize, PS), Er> {
    if !more(s) { fail(ErrorKind::EndOfFile, s) }
    else { match parse_spec::<usize>(s.t[0]) { Some(v) => Ok((v, adv(s))), None => fail(ErrorKind::ExpectedInteger, adv(s)) } }
}

pub open spec fn s_color(s: PS) -> Result<(Color, PS), Er> {
    match s_f64(s) { Err(e) => Err(e), Ok((r, s)) => match s_f64(s) { Err(e) => Err(e), Ok((g, s)) => match s_f64(s) { Err(e) => Err(e), Ok((b, s)) =>
        Ok((Color { r: r, g: g, b: b }, s)) } } }
}

/// A property that starts with a tag.
pub open spec fn tag_color(s: PS, tag: Str) -> Result<(Color, PS), Er> { match s_tag(s, tag) { Err(e) => Err(e), Ok((_, s)) => s_color(s) } }
pub open spec fn tag_f64(s: PS, tag: Str) -> Result<(f64, PS), Er> { match s_tag(s, tag) { Err(e) => Err(e), Ok((_, s)) => s_f64(s) } }
pub open spec fn tag_name(s: PS, tag: Str) -> Result<(Str, PS), Er> { match s_tag(s, tag) { Err(e) => Err(e), Ok((_, s)) => s_name(s) } }

/// A map is read if its tag is there.
pub open spec fn s_map(s: PS, tag: Str) -> Result<(Option<Str>, PS), Er> {
    if !at(s, tag) { Ok((None, s)) } else { match s_name(adv(s)) { Err(e) => Err(e), Ok((name, s)) => Ok((Some(name), s)) } }
}
pub open spec fn s_bump(s: PS) -> Result<(Option<Str>, PS), Er> {
    if at(s, "map_Bump"@) { s_map(s, "map_Bump"@) } else { s_map(s, "bump"@) }
}

pub open spec fn s_illum(s: PS) -> Result<(IlluminationModel, PS), Er> {
    match s_tag(s, "illum"@) { Err(e) => Err(e), Ok((_, s)) => match s_usize(s) { Err(e) => Err(e), Ok((k, s)) =>
        if k == 0 { Ok((IlluminationModel::Ambient, s)) }
        else if k == 1 { Ok((IlluminationModel::AmbientDiffuse, s)) }
        else if k == 2 { Ok((IlluminationModel::AmbientDiffuseSpecular, s)) }
        else { fail(ErrorKind::UnknownIlluminationModel, s) }
    } }
}

/// What the caller sees of a material.
pub struct MatV {
    pub name: Str, pub color_ambient: Color, pub color_diffuse: Color, pub color_specular: Color, pub color_emissive: Color,
    pub specular_exponent: f64, pub dissolve: f64, pub optical_density: Option<f64>, pub illumination_model: IlluminationModel,
    pub map_ambient: Option<Str>, pub map_diffuse: Option<Str>, pub map_specular: Option<Str>, pub map_emissive: Option<Str>, pub map_specular_exponent: Option<Str>,
    pub map_bump: Option<Str>, pub map_displacement: Option<Str>, pub map_dissolve: Option<Str>, pub map_decal: Option<Str>,
}

pub open spec fn black() -> Color { Color { r: 0.0f64, g: 0.0f64, b: 0.0f64 } }

/// The properties a material has without being told.
pub open spec fn fresh(name: Str) -> MatV {
    MatV { name: name, color_ambient: black(), color_diffuse: black(), color_specular: black(), color_emissive: black(),
        specular_exponent: 0.0f64, dissolve: 1.0f64, optical_density: None, illumination_model: IlluminationModel::AmbientDiffuseSpecular,
        map_ambient: None, map_diffuse: None, map_specular: None, map_emissive: None, map_specular_exponent: None,
        map_bump: None, map_displacement: None, map_dissolve: None, map_decal: None }
}

pub open spec fn s_newmtl(s: PS) -> Result<(Str, PS), Er> { tag_name(s, "newmtl"@) }

/// One statement of a material: it sets its property, and no other.
pub open spec fn step(s: PS, m: MatV) -> Result<(MatV, PS), Er> {
    if at(s, "Ka"@) {
        match tag_color(s, "Ka"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { color_ambient: x, ..m }, s)) }
    }
    else if at(s, "Kd"@) {
        match tag_color(s, "Kd"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { color_diffuse: x, ..m }, s)) }
    }
    else if at(s, "Ks"@) {
        match tag_color(s, "Ks"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { color_specular: x, ..m }, s)) }
    }
    else if at(s, "Ke"@) {
        match tag_color(s, "Ke"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { color_emissive: x, ..m }, s)) }
    }
    else if at(s, "d"@) {
        match tag_f64(s, "d"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { dissolve: x, ..m }, s)) }
    }
    else if at(s, "illum"@) {
        match s_illum(s) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { illumination_model: x, ..m }, s)) }
    }
    else if at(s, "Ns"@) {
        match tag_f64(s, "Ns"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { specular_exponent: x, ..m }, s)) }
    }
    else if at(s, "Ni"@) {
        match tag_f64(s, "Ni"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { optical_density: Some(x), ..m }, s)) }
    }
    else if at(s, "map_Ka"@) {
        match s_map(s, "map_Ka"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_ambient: x, ..m }, s)) }
    }
    else if at(s, "map_Kd"@) {
        match s_map(s, "map_Kd"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_diffuse: x, ..m }, s)) }
    }
    else if at(s, "map_Ks"@) {
        match s_map(s, "map_Ks"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_specular: x, ..m }, s)) }
    }
    else if at(s, "map_Ke"@) {
        match s_map(s, "map_Ke"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_emissive: x, ..m }, s)) }
    }
    else if at(s, "map_Ns"@) {
        match s_map(s, "map_Ns"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_specular_exponent: x, ..m }, s)) }
    }
    else if at(s, "disp"@) {
        match s_map(s, "disp"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_displacement: x, ..m }, s)) }
    }
    else if at(s, "map_d"@) {
        match s_map(s, "map_d"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_dissolve: x, ..m }, s)) }
    }
    else if at(s, "decal"@) {
        match s_map(s, "decal"@) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_decal: x, ..m }, s)) }
    }
    else if at(s, "map_Bump"@) || at(s, "bump"@) {
        match s_bump(s) { Err(e) => Err(e), Ok((x, s)) => Ok((MatV { map_bump: x, ..m }, s)) }
    }
    else { fail(ErrorKind::ErrorParsingMaterial, s) }
}

pub open spec fn material_ends(s: PS) -> bool { !more(s) || at(s, "newmtl"@) }

pub open spec fn body(s: PS, m: MatV) -> Result<(MatV, PS), Er>
    decreases s.t.len(),
{
    if material_ends(s) { Ok((m, s)) } else {
        match step(s, m) { Err(e) => Err(e), Ok((m2, s2)) => { let s3 = skip_nl(s2); if s3.t.len() < s.t.len() { body(s3, m2) } else { arbitrary() } } }
    }
}

pub open spec fn s_material(s: PS) -> Result<(MatV, PS), Er> {
    match s_newmtl(s) { Err(e) => Err(e), Ok((name, s)) => body(skip_nl(s), fresh(name)) }
}

pub open spec fn s_materials(s: PS, acc: Seq<MatV>) -> Result<(Seq<MatV>, PS), Er>
    decreases s.t.len(),
{
    if !at(s, "newmtl"@) { Ok((acc, s)) } else {
        match s_material(s) { Err(e) => Err(e), Ok((m, s2)) => if s2.t.len() < s.t.len() { s_materials(s2, acc.push(m)) } else { arbitrary() } }
    }
}

/// A material file: materials, and nothing else.
pub open spec fn s_mtlset(s: PS) -> Result<(Seq<MatV>, PS), Er> {
    match s_materials(skip_nl(s), Seq::empty()) { Err(e) => Err(e), Ok((v, s)) => if more(s) { fail(ErrorKind::ExpectedEndOfInput, s) } else { Ok((v, s)) } }
}

// Views of what the parser returns.
pub open spec fn opt_str(o: Option<&str>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn opt_string(o: Option<String>) -> Option<Str> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn mat_v(m: Material) -> MatV {
    MatV { name: m.name@, color_ambient: m.color_ambient, color_diffuse: m.color_diffuse, color_specular: m.color_specular, color_emissive: m.color_emissive,
        specular_exponent: m.specular_exponent, dissolve: m.dissolve, optical_density: m.optical_density, illumination_model: m.illumination_model,
        map_ambient: opt_string(m.map_ambient), map_diffuse: opt_string(m.map_diffuse), map_specular: opt_string(m.map_specular), map_emissive: opt_string(m.map_emissive),
        map_specular_exponent: opt_string(m.map_specular_exponent), map_bump: opt_string(m.map_bump), map_displacement: opt_string(m.map_displacement),
        map_dissolve: opt_string(m.map_dissolve), map_decal: opt_string(m.map_decal) }
}
pub open spec fn mats_v(v: Seq<Material>) -> Seq<MatV> { v.map_values(|m: Material| mat_v(m)) }

pub broadcast proof fn lemma_push_mat(v: Seq<Material>, m: Material)
    ensures #[trigger] mats_v(v.push(m)) == mats_v(v).push(mat_v(m)),
{ assert(mats_v(v.push(m)) =~= mats_v(v).push(mat_v(m))); }

/// The tags are different words.
pub proof fn lemma_tags()
    ensures
        "newmtl"@ != "\n"@,
        "newmtl"@ != "Ka"@,
        "newmtl"@ != "Kd"@,
        "newmtl"@ != "Ks"@,
        "newmtl"@ != "Ke"@,
        "newmtl"@ != "d"@,
        "newmtl"@ != "Ns"@,
        "newmtl"@ != "Ni"@,
        "newmtl"@ != "map_Ka"@,
        "newmtl"@ != "map_Kd"@,
        "newmtl"@ != "map_Ks"@,
        "newmtl"@ != "map_Ke"@,
        "newmtl"@ != "map_Ns"@,
        "newmtl"@ != "disp"@,
        "newmtl"@ != "map_d"@,
        "newmtl"@ != "decal"@,
        "newmtl"@ != "illum"@,
        "newmtl"@ != "map_Bump"@,
        "newmtl"@ != "bump"@,
        "\n"@ != "Ka"@,
        "\n"@ != "Kd"@,
        "\n"@ != "Ks"@,
        "\n"@ != "Ke"@,
        "\n"@ != "d"@,
        "\n"@ != "Ns"@,
        "\n"@ != "Ni"@,
        "\n"@ != "map_Ka"@,
        "\n"@ != "map_Kd"@,
        "\n"@ != "map_Ks"@,
        "\n"@ != "map_Ke"@,
        "\n"@ != "map_Ns"@,
        "\n"@ != "disp"@,
        "\n"@ != "map_d"@,
        "\n"@ != "decal"@,
        "\n"@ != "illum"@,
        "\n"@ != "map_Bump"@,
        "\n"@ != "bump"@,
        "Ka"@ != "Kd"@,
        "Ka"@ != "Ks"@,
        "Ka"@ != "Ke"@,
        "Ka"@ != "d"@,
        "Ka"@ != "Ns"@,
        "Ka"@ != "Ni"@,
        "Ka"@ != "map_Ka"@,
        "Ka"@ != "map_Kd"@,
        "Ka"@ != "map_Ks"@,
        "Ka"@ != "map_Ke"@,
        "Ka"@ != "map_Ns"@,
        "Ka"@ != "disp"@,
        "Ka"@ != "map_d"@,
        "Ka"@ != "decal"@,
        "Ka"@ != "illum"@,
        "Ka"@ != "map_Bump"@,
        "Ka"@ != "bump"@,
        "Kd"@ != "Ks"@,
        "Kd"@ != "Ke"@,
        "Kd"@ != "d"@,
        "Kd"@ != "Ns"@,
        "Kd"@ != "Ni"@,
        "Kd"@ != "map_Ka"@,
        "Kd"@ != "map_Kd"@,
        "Kd"@ != "map_Ks"@,
        "Kd"@ != "map_Ke"@,
        "Kd"@ != "map_Ns"@,
        "Kd"@ != "disp"@,
        "Kd"@ != "map_d"@,
        "Kd"@ != "decal"@,
        "Kd"@ != "illum"@,
        "Kd"@ != "map_Bump"@,
        "Kd"@ != "bump"@,
        "Ks"@ != "Ke"@,
        "Ks"@ != "d"@,
        "Ks"@ != "Ns"@,
        "Ks"@ != "Ni"@,
        "Ks"@ != "map_Ka"@,
        "Ks"@ != "map_Kd"@,
        "Ks"@ != "map_Ks"@,
        "Ks"@ != "map_Ke"@,
        "Ks"@ != "map_Ns"@,
        "Ks"@ != "disp"@,
        "Ks"@ != "map_d"@,
        "Ks"@ != "decal"@,
        "Ks"@ != "illum"@,
        "Ks"@ != "map_Bump"@,
        "Ks"@ != "bump"@,
        "Ke"@ != "d"@,
        "Ke"@ != "Ns"@,
        "Ke"@ != "Ni"@,
        "Ke"@ != "map_Ka"@,
        "Ke"@ != "map_Kd"@,
        "Ke"@ != "map_Ks"@,
        "Ke"@ != "map_Ke"@,
        "Ke"@ != "map_Ns"@,
        "Ke"@ != "disp"@,
        "Ke"@ != "map_d"@,
        "Ke"@ != "decal"@,
        "Ke"@ != "illum"@,
        "Ke"@ != "map_Bump"@,
        "Ke"@ != "bump"@,
        "d"@ != "Ns"@,
        "d"@ != "Ni"@,
        "d"@ != "map_Ka"@,
        "d"@ != "map_Kd"@,
        "d"@ != "map_Ks"@,
        "d"@ != "map_Ke"@,
        "d"@ != "map_Ns"@,
        "d"@ != "disp"@,
        "d"@ != "map_d"@,
        "d"@ != "decal"@,
        "d"@ != "illum"@,
        "d"@ != "map_Bump"@,
        "d"@ != "bump"@,
        "Ns"@ != "Ni"@,
        "Ns"@ != "map_Ka"@,
        "Ns"@ != "map_Kd"@,
        "Ns"@ != "map_Ks"@,
        "Ns"@ != "map_Ke"@,
        "Ns"@ != "map_Ns"@,
        "Ns"@ != "disp"@,
        "Ns"@ != "map_d"@,
        "Ns"@ != "decal"@,
        "Ns"@ != "illum"@,
        "Ns"@ != "map_Bump"@,
        "Ns"@ != "bump"@,
        "Ni"@ != "map_Ka"@,
        "Ni"@ != "map_Kd"@,
        "Ni"@ != "map_Ks"@,
        "Ni"@ != "map_Ke"@,
        "Ni"@ != "map_Ns"@,
        "Ni"@ != "disp"@,
        "Ni"@ != "map_d"@,
        "Ni"@ != "decal"@,
        "Ni"@ != "illum"@,
        "Ni"@ != "map_Bump"@,
        "Ni"@ != "bump"@,
        "map_Ka"@ != "map_Kd"@,
        "map_Ka"@ != "map_Ks"@,
        "map_Ka"@ != "map_Ke"@,
        "map_Ka"@ != "map_Ns"@,
        "map_Ka"@ != "disp"@,
        "map_Ka"@ != "map_d"@,
        "map_Ka"@ != "decal"@,
        "map_Ka"@ != "illum"@,
        "map_Ka"@ != "map_Bump"@,
        "map_Ka"@ != "bump"@,
        "map_Kd"@ != "map_Ks"@,
        "map_Kd"@ != "map_Ke"@,
        "map_Kd"@ != "map_Ns"@,
        "map_Kd"@ != "disp"@,
        "map_Kd"@ != "map_d"@,
        "map_Kd"@ != "decal"@,
        "map_Kd"@ != "illum"@,
        "map_Kd"@ != "map_Bump"@,
        "map_Kd"@ != "bump"@,
        "map_Ks"@ != "map_Ke"@,
        "map_Ks"@ != "map_Ns"@,
        "map_Ks"@ != "disp"@,
        "map_Ks"@ != "map_d"@,
        "map_Ks"@ != "decal"@,
        "map_Ks"@ != "illum"@,
        "map_Ks"@ != "map_Bump"@,
        "map_Ks"@ != "bump"@,
        "map_Ke"@ != "map_Ns"@,
        "map_Ke"@ != "disp"@,
        "map_Ke"@ != "map_d"@,
        "map_Ke"@ != "decal"@,
        "map_Ke"@ != "illum"@,
        "map_Ke"@ != "map_Bump"@,
        "map_Ke"@ != "bump"@,
        "map_Ns"@ != "disp"@,
        "map_Ns"@ != "map_d"@,
        "map_Ns"@ != "decal"@,
        "map_Ns"@ != "illum"@,
        "map_Ns"@ != "map_Bump"@,
        "map_Ns"@ != "bump"@,
        "disp"@ != "map_d"@,
        "disp"@ != "decal"@,
        "disp"@ != "illum"@,
        "disp"@ != "map_Bump"@,
        "disp"@ != "bump"@,
        "map_d"@ != "decal"@,
        "map_d"@ != "illum"@,
        "map_d"@ != "map_Bump"@,
        "map_d"@ != "bump"@,
        "decal"@ != "illum"@,
        "decal"@ != "map_Bump"@,
        "decal"@ != "bump"@,
        "illum"@ != "map_Bump"@,
        "illum"@ != "bump"@,
        "map_Bump"@ != "bump"@,
{
    reveal_strlit("newmtl");
    reveal_strlit("\n");
    reveal_strlit("Ka");
    reveal_strlit("Kd");
    reveal_strlit("Ks");
    reveal_strlit("Ke");
    reveal_strlit("d");
    reveal_strlit("Ns");
    reveal_strlit("Ni");
    reveal_strlit("map_Ka");
    reveal_strlit("map_Kd");
    reveal_strlit("map_Ks");
    reveal_strlit("map_Ke");
    reveal_strlit("map_Ns");
    reveal_strlit("disp");
    reveal_strlit("map_d");
    reveal_strlit("decal");
    reveal_strlit("illum");
    reveal_strlit("map_Bump");
    reveal_strlit("bump");
    assert("newmtl"@.len() == 6 && "newmtl"@[0] == 'n' && "newmtl"@[1] == 'e' && "newmtl"@[2] == 'w' && "newmtl"@[3] == 'm' && "newmtl"@[4] == 't' && "newmtl"@[5] == 'l');
    assert("\n"@.len() == 1 && "\n"@[0] == '\n');
    assert("Ka"@.len() == 2 && "Ka"@[0] == 'K' && "Ka"@[1] == 'a');
    assert("Kd"@.len() == 2 && "Kd"@[0] == 'K' && "Kd"@[1] == 'd');
    assert("Ks"@.len() == 2 && "Ks"@[0] == 'K' && "Ks"@[1] == 's');
    assert("Ke"@.len() == 2 && "Ke"@[0] == 'K' && "Ke"@[1] == 'e');
    assert("d"@.len() == 1 && "d"@[0] == 'd');
    assert("Ns"@.len() == 2 && "Ns"@[0] == 'N' && "Ns"@[1] == 's');
    assert("Ni"@.len() == 2 && "Ni"@[0] == 'N' && "Ni"@[1] == 'i');
    assert("map_Ka"@.len() == 6 && "map_Ka"@[0] == 'm' && "map_Ka"@[1] == 'a' && "map_Ka"@[2] == 'p' && "map_Ka"@[3] == '_' && "map_Ka"@[4] == 'K' && "map_Ka"@[5] == 'a');
    assert("map_Kd"@.len() == 6 && "map_Kd"@[0] == 'm' && "map_Kd"@[1] == 'a' && "map_Kd"@[2] == 'p' && "map_Kd"@[3] == '_' && "map_Kd"@[4] == 'K' && "map_Kd"@[5] == 'd');
    assert("map_Ks"@.len() == 6 && "map_Ks"@[0] == 'm' && "map_Ks"@[1] == 'a' && "map_Ks"@[2] == 'p' && "map_Ks"@[3] == '_' && "map_Ks"@[4] == 'K' && "map_Ks"@[5] == 's');
    assert("map_Ke"@.len() == 6 && "map_Ke"@[0] == 'm' && "map_Ke"@[1] == 'a' && "map_Ke"@[2] == 'p' && "map_Ke"@[3] == '_' && "map_Ke"@[4] == 'K' && "map_Ke"@[5] == 'e');
    assert("map_Ns"@.len() == 6 && "map_Ns"@[0] == 'm' && "map_Ns"@[1] == 'a' && "map_Ns"@[2] == 'p' && "map_Ns"@[3] == '_' && "map_Ns"@[4] == 'N' && "map_Ns"@[5] == 's');
    assert("disp"@.len() == 4 && "disp"@[0] == 'd' && "disp"@[1] == 'i' && "disp"@[2] == 's' && "disp"@[3] == 'p');
    assert("map_d"@.len() == 5 && "map_d"@[0] == 'm' && "map_d"@[1] == 'a' && "map_d"@[2] == 'p' && "map_d"@[3] == '_' && "map_d"@[4] == 'd');
    assert("decal"@.len() == 5 && "decal"@[0] == 'd' && "decal"@[1] == 'e' && "decal"@[2] == 'c' && "decal"@[3] == 'a' && "decal"@[4] == 'l');
    assert("illum"@.len() == 5 && "illum"@[0] == 'i' && "illum"@[1] == 'l' && "illum"@[2] == 'l' && "illum"@[3] == 'u' && "illum"@[4] == 'm');
    assert("map_Bump"@.len() == 8 && "map_Bump"@[0] == 'm' && "map_Bump"@[1] == 'a' && "map_Bump"@[2] == 'p' && "map_Bump"@[3] == '_' && "map_Bump"@[4] == 'B' && "map_Bump"@[5] == 'u' && "map_Bump"@[6] == 'm' && "map_Bump"@[7] == 'p');
    assert("bump"@.len() == 4 && "bump"@[0] == 'b' && "bump"@[1] == 'u' && "bump"@[2] == 'm' && "bump"@[3] == 'p');
}

/// A statement consumes tokens.
pub proof fn lemma_step(s: PS, m: MatV)
    requires step(s, m) is Ok,
    ensures step(s, m)->Ok_0.1.t.len() < s.t.len(),
{}
pub proof fn lemma_body_step(s: PS, m: MatV)
    requires !material_ends(s),
    ensures step(s, m) is Err ==> body(s, m) is Err && body(s, m)->Err_0 == step(s, m)->Err_0,
        step(s, m) is Ok ==> body(s, m) == body(skip_nl(step(s, m)->Ok_0.1), step(s, m)->Ok_0.0) && skip_nl(step(s, m)->Ok_0.1).t.len() < s.t.len(),
{
    if step(s, m) is Ok { lemma_step(s, m); lemma_skip_nl(step(s, m)->Ok_0.1); }
}
pub proof fn lemma_body(s: PS, m: MatV)
    requires body(s, m) is Ok,
    ensures body(s, m)->Ok_0.1.t.len() <= s.t.len(), material_ends(body(s, m)->Ok_0.1),
    decreases s.t.len(),
{
    if !material_ends(s) { lemma_body_step(s, m); lemma_body(skip_nl(step(s, m)->Ok_0.1), step(s, m)->Ok_0.0); }
}
pub proof fn lemma_material(s: PS)
    requires s_material(s) is Ok,
    ensures s_material(s)->Ok_0.1.t.len() < s.t.len(),
{
    lemma_skip_nl(adv(adv(s)));
    lemma_body(skip_nl(adv(adv(s))), fresh(s_newmtl(s)->Ok_0.0));
}

} // verus!
}
