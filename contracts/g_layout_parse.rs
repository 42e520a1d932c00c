pub mod layoutobj {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::lexspec::*;
use crate::parsespec::*;
use crate::prelude::*;
use crate::layoutspec::*;
use crate::objspec::*;
use crate::obj::*;
verus! {

// Token sequences that are the same but for repeated line endings are the same OBJ file.

/// The same value and the same place, or the same kind of error.
pub open spec fn alike<T>(x: Result<(T, PS), Er>, y: Result<(T, PS), Er>) -> bool {
    match (x, y) { (Ok((v, s)), Ok((w, t))) => v == w && same(s, t), (Err(e), Err(f)) => e.kind == f.kind, _ => false }
}
/// The same, where the place may be before or after line endings.
pub open spec fn close<T>(x: Result<(T, PS), Er>, y: Result<(T, PS), Er>) -> bool {
    match (x, y) { (Ok((v, s)), Ok((w, t))) => v == w && akin(s, t), (Err(e), Err(f)) => e.kind == f.kind, _ => false }
}
/// The same value, or the same kind of error.
pub open spec fn agree<T>(x: Result<(T, PS), Er>, y: Result<(T, PS), Er>) -> bool {
    match (x, y) { (Ok((v, s)), Ok((w, t))) => v == w, (Err(e), Err(f)) => e.kind == f.kind, _ => false }
}

proof fn lemma_values(a: PS, b: PS)
    requires same(a, b),
    ensures alike(s_f64(a), s_f64(b)), alike(s_isize(a), s_isize(b)), opt_f64(a).0 == opt_f64(b).0, same(opt_f64(a).1, opt_f64(b).1),
        forall|rv: Range, rt: Range, rn: Range| alike(#[trigger] s_vtn(a, rv, rt, rn), s_vtn(b, rv, rt, rn)),
        forall|tag: Str| tag != nl() ==> alike(#[trigger] s_tag(a, tag), s_tag(b, tag)),
        alike(s_newlines(a), s_newlines(b)),
{
    lemma_same(a, b);
    axiom_no_newline_number();
    if at(a, nl()) {
        lemma_akin(adv(a), adv(b));
        assert forall|rv: Range, rt: Range, rn: Range| alike(#[trigger] s_vtn(a, rv, rt, rn), s_vtn(b, rv, rt, rn)) by { lemma_newline_vtn(rv, rt, rn); }
    }
}

proof fn lemma_newline_vtn(rv: Range, rt: Range, rn: Range)
    ensures vtn_of(nl(), rv, rt, rn) is Err,
{
    axiom_no_newline_number();
    reveal_strlit("\n");
    assert(nl()[0] == '\n' && nl().len() == 1);
    assert(!nl().contains('/'));
    let fs = split_on(nl(), '/');
    assert(fs[0] == nl());
}

proof fn lemma_vtns_same(a: PS, b: PS, rv: Range, rt: Range, rn: Range, acc: Seq<VTNIndex>)
    requires same(a, b),
    ensures alike(s_vtns(a, rv, rt, rn, acc), s_vtns(b, rv, rt, rn, acc)),
    decreases a.t.len(),
{
    lemma_same(a, b);
    if more(a) && !at(a, nl()) {
        match vtn_of(a.t[0], rv, rt, rn) { Err(k) => {}, Ok(v) => { lemma_vtns_same(adv(a), adv(b), rv, rt, rn, acc.push(v)); } }
    }
}

proof fn lemma_more_points_same(a: PS, b: PS, rv: Range, acc: Seq<Element>)
    requires same(a, b),
    ensures close(s_more_points(a, rv, acc), s_more_points(b, rv, acc)),
    decreases a.t.len(),
{
    lemma_same(a, b);
    if more(a) && !at(a, nl()) {
        match parse_spec::<isize>(a.t[0]) { None => {}, Some(v) => match resolve(rv, v as int) { None => {}, Some(i) => {
            lemma_more_points_same(adv(a), adv(b), rv, acc.push(Element::Point(VTNIndex::V(i))));
        } } }
    }
}

proof fn lemma_points_same(a: PS, b: PS, rv: Range, acc: Seq<Element>)
    requires same(a, b), at(a, "p"@),
    ensures close(s_points(a, rv, acc), s_points(b, rv, acc)),
{
    lemma_tags();
    lemma_same(a, b);
    let (a1, b1) = (adv(a), adv(b));
    lemma_values(a1, b1);
    match s_isize(a1) { Err(e) => {}, Ok((v, a2)) => {
        let b2 = s_isize(b1)->Ok_0.1;
        match resolve(rv, v as int) { None => {}, Some(i) => { lemma_more_points_same(a2, b2, rv, acc.push(Element::Point(VTNIndex::V(i)))); } }
    } }
}

proof fn lemma_line_same(a: PS, b: PS, rv: Range, rt: Range, rn: Range, acc: Seq<Element>)
    requires same(a, b), at(a, "l"@),
    ensures close(s_line(a, rv, rt, rn, acc), s_line(b, rv, rt, rn, acc)),
{
    lemma_tags();
    lemma_same(a, b);
    let (a1, b1) = (adv(a), adv(b));
    lemma_values(a1, b1);
    assert(alike(s_vtn(a1, rv, rt, rn), s_vtn(b1, rv, rt, rn)));
    if s_vtn(a1, rv, rt, rn) is Ok {
        let (x, a2) = s_vtn(a1, rv, rt, rn)->Ok_0;
        let b2 = s_vtn(b1, rv, rt, rn)->Ok_0.1;
        lemma_values(a2, b2);
        assert(alike(s_vtn(a2, rv, rt, rn), s_vtn(b2, rv, rt, rn)));
        if s_vtn(a2, rv, rt, rn) is Ok {
            let (y, a3) = s_vtn(a2, rv, rt, rn)->Ok_0;
            let b3 = s_vtn(b2, rv, rt, rn)->Ok_0.1;
            let acc2 = Seq::empty().push(x).push(y);
            lemma_vtns_same(a3, b3, rv, rt, rn, acc2);
            if s_vtns(a3, rv, rt, rn, acc2) is Ok { lemma_same(s_vtns(a3, rv, rt, rn, acc2)->Ok_0.1, s_vtns(b3, rv, rt, rn, acc2)->Ok_0.1); }
        }
    }
}

proof fn lemma_face_same(a: PS, b: PS, rv: Range, rt: Range, rn: Range, acc: Seq<Element>)
    requires same(a, b), at(a, "f"@),
    ensures close(s_face(a, rv, rt, rn, acc), s_face(b, rv, rt, rn, acc)),
{
    lemma_tags();
    lemma_same(a, b);
    let (a1, b1) = (adv(a), adv(b));
    lemma_vtns_same(a1, b1, rv, rt, rn, Seq::empty());
    if s_vtns(a1, rv, rt, rn, Seq::empty()) is Ok { lemma_same(s_vtns(a1, rv, rt, rn, Seq::empty())->Ok_0.1, s_vtns(b1, rv, rt, rn, Seq::empty())->Ok_0.1); }
}

/// `n` numbers in a row.
proof fn lemma_three(a: PS, b: PS)
    requires same(a, b),
    ensures alike(s_f64(a), s_f64(b)),
        s_f64(a) is Ok ==> alike(s_f64(s_f64(a)->Ok_0.1), s_f64(s_f64(b)->Ok_0.1)),
        s_f64(a) is Ok && s_f64(s_f64(a)->Ok_0.1) is Ok ==> alike(s_f64(s_f64(s_f64(a)->Ok_0.1)->Ok_0.1), s_f64(s_f64(s_f64(b)->Ok_0.1)->Ok_0.1)),
{
    lemma_values(a, b);
    if s_f64(a) is Ok {
        let (a1, b1) = (s_f64(a)->Ok_0.1, s_f64(b)->Ok_0.1);
        lemma_values(a1, b1);
        if s_f64(a1) is Ok { lemma_values(s_f64(a1)->Ok_0.1, s_f64(b1)->Ok_0.1); }
    }
}

proof fn lemma_vertex_same(a: PS, b: PS)
    requires same(a, b), at(a, "v"@),
    ensures alike(s_vertex(a), s_vertex(b)),
{
    lemma_tags();
    lemma_same(a, b);
    let (a1, b1) = (adv(a), adv(b));
    lemma_three(a1, b1);
    if s_vertex(a) is Ok {
        let a4 = s_f64(s_f64(s_f64(a1)->Ok_0.1)->Ok_0.1)->Ok_0.1;
        let b4 = s_f64(s_f64(s_f64(b1)->Ok_0.1)->Ok_0.1)->Ok_0.1;
        lemma_values(a4, b4);
    }
}
proof fn lemma_texture_same(a: PS, b: PS)
    requires same(a, b), at(a, "vt"@),
    ensures alike(s_texture(a), s_texture(b)),
{
    lemma_tags();
    lemma_same(a, b);
    let (a1, b1) = (adv(a), adv(b));
    lemma_values(a1, b1);
    if s_f64(a1) is Ok {
        let (a2, b2) = (s_f64(a1)->Ok_0.1, s_f64(b1)->Ok_0.1);
        lemma_values(a2, b2);
        lemma_values(opt_f64(a2).1, opt_f64(b2).1);
    }
}
proof fn lemma_normal_same(a: PS, b: PS)
    requires same(a, b), at(a, "vn"@),
    ensures alike(s_normal(a), s_normal(b)),
{
    lemma_tags();
    lemma_same(a, b);
    lemma_three(adv(a), adv(b));
}

proof fn lemma_step_same(a: PS, b: PS, ob: OB, base: Base)
    requires same(a, b), !at(a, nl()),
    ensures close(step(a, ob, base), step(b, ob, base)),
{
    lemma_same(a, b);
    lemma_tags();
    axiom_no_newline_number();
    let (x, y) = (step(a, ob, base), step(b, ob, base));
    if at(a, "g"@) { lemma_words_same(adv(a), adv(b), ob.groups); }
    else if at(a, "s"@) {
        lemma_same(adv(a), adv(b));
        assert("off"@ != nl()) by { reveal_strlit("off"); reveal_strlit("\n"); assert("off"@.len() == 3); assert(nl().len() == 1); }
    }
    else if at(a, "usemtl"@) { lemma_same(adv(a), adv(b)); }
    else if at(a, "v"@) { lemma_vertex_same(a, b); }
    else if at(a, "vt"@) { lemma_texture_same(a, b); }
    else if at(a, "vn"@) { lemma_normal_same(a, b); }
    else if at(a, "p"@) { lemma_points_same(a, b, rv(ob, base), ob.elems); }
    else if at(a, "l"@) { lemma_line_same(a, b, rv(ob, base), rt(ob, base), rn(ob, base), ob.elems); }
    else if at(a, "f"@) { lemma_face_same(a, b, rv(ob, base), rt(ob, base), rn(ob, base), ob.elems); }
    if x is Ok && y is Ok && same(x->Ok_0.1, y->Ok_0.1) { lemma_same(x->Ok_0.1, y->Ok_0.1); }
}

/// Line endings between statements do nothing.
proof fn lemma_body_skips(s: PS, ob: OB, base: Base)
    ensures body(s, ob, base) == body(skip_nl(s), ob, base),
{
    lemma_tags();
    if at(s, nl()) { lemma_step(s, ob, base); lemma_body_step(s, ob, base); }
}

proof fn lemma_body_same(a: PS, b: PS, ob: OB, base: Base)
    requires akin(a, b),
    ensures alike(body(a, ob, base), body(b, ob, base)),
    decreases a.t.len(),
{
    hide(step);
    let (c, d) = (skip_nl(a), skip_nl(b));
    lemma_body_skips(a, ob, base); lemma_body_skips(b, ob, base);
    lemma_skip_nl(a); lemma_skip_nl(b);
    lemma_akin(a, b);
    lemma_same(c, d);
    if !object_ends(c) {
        lemma_step_same(c, d, ob, base);
        lemma_body_step(c, ob, base); lemma_body_step(d, ob, base);
        if step(c, ob, base) is Ok {
            lemma_step(c, ob, base);
            lemma_body_same(step(c, ob, base)->Ok_0.1, step(d, ob, base)->Ok_0.1, step(c, ob, base)->Ok_0.0, base);
        }
    }
}

proof fn lemma_object_name_same(a: PS, b: PS)
    requires same(a, b),
    ensures alike(s_object_name(a), s_object_name(b)),
{
    lemma_tags();
    lemma_same(a, b);
    if at(a, "o"@) {
        let (a1, b1) = (adv(a), adv(b));
        lemma_same(a1, b1);
        if more(a1) && !at(a1, nl()) { lemma_values(adv(a1), adv(b1)); }
    }
}

proof fn lemma_objects_same(a: PS, b: PS, base: Base, acc: Seq<ObjV>)
    requires same(a, b),
    ensures agree(s_objects(a, base, acc), s_objects(b, base, acc)),
    decreases a.t.len(),
{
    hide(body);
    lemma_same(a, b);
    if more(a) {
        lemma_object_name_same(a, b);
        lemma_object_of(a, base); lemma_object_of(b, base);
        if s_object_name(a) is Ok {
            let (a1, b1) = (s_object_name(a)->Ok_0.1, s_object_name(b)->Ok_0.1);
            lemma_same(a1, b1);
            lemma_body_same(a1, b1, empty_ob(), base);
            if body(a1, empty_ob(), base) is Ok {
                lemma_object(a, base); lemma_object(b, base);
                let (a2, b2) = (s_object(a, base)->Ok_0.1, s_object(b, base)->Ok_0.1);
                lemma_same(a2, b2);
                lemma_skip_nl(a2); lemma_skip_nl(b2);
                let (o, base2) = s_object(a, base)->Ok_0.0;
                lemma_objects_same(skip_nl(a2), skip_nl(b2), base2, acc.push(o));
            }
        }
    }
}

proof fn lemma_libs_same(a: PS, b: PS, acc: Seq<Str>)
    requires same(a, b),
    ensures s_libs(a, acc).0 == s_libs(b, acc).0, same(s_libs(a, acc).1, s_libs(b, acc).1),
    decreases a.t.len(),
{
    lemma_tags();
    lemma_same(a, b);
    if at(a, "mtllib"@) {
        lemma_words_same(adv(a), adv(b), acc);
        let (n, a2) = words(adv(a), acc);
        let b2 = words(adv(b), acc).1;
        lemma_words(adv(a), acc); lemma_words(adv(b), acc);
        lemma_skip_nl(a2); lemma_skip_nl(b2);
        lemma_akin(a2, b2);
        lemma_libs_same(skip_nl(a2), skip_nl(b2), n);
    }
}

/// Layout does not change what an OBJ text means.
pub proof fn lemma_set_same(a: PS, b: PS)
    requires akin(a, b),
    ensures agree(s_set(a), s_set(b)), // [C20]
{
    lemma_akin(a, b);
    lemma_libs_same(skip_nl(a), skip_nl(b), Seq::empty());
    let (a2, b2) = (s_libs(skip_nl(a), Seq::empty()).1, s_libs(skip_nl(b), Seq::empty()).1);
    lemma_same(a2, b2);
    lemma_objects_same(skip_nl(a2), skip_nl(b2), Base { v: 0, t: 0, n: 0 }, Seq::empty());
}

/// The outcome is the one for the text in any other layout.
pub open spec fn any_layout(r: Result<ObjectSet, ParseError>, x: Str) -> bool {
    forall|y: Str| (relayout(encode_utf8(x), encode_utf8(y)) || relayout(encode_utf8(y), encode_utf8(x))) ==> same_outcome(r, #[trigger] s_set(ps_of(y)))
}
pub open spec fn same_outcome(r: Result<ObjectSet, ParseError>, want: Result<(SetV, PS), Er>) -> bool {
    r.is_ok() == want.is_ok() && (r is Ok ==> set_v(r->Ok_0) == want->Ok_0.0) && kind(r, want)
}

/// What is right for a text is right for it in any other layout.
pub proof fn lemma_any_layout()
    ensures forall|r: Result<ObjectSet, ParseError>, x: Str| same_outcome(r, s_set(ps_of(x))) ==> #[trigger] any_layout(r, x), // [C20]
{
    assert forall|r: Result<ObjectSet, ParseError>, x: Str| same_outcome(r, s_set(ps_of(x))) implies #[trigger] any_layout(r, x) by {
        assert forall|y: Str| relayout(encode_utf8(x), encode_utf8(y)) || relayout(encode_utf8(y), encode_utf8(x)) implies same_outcome(r, #[trigger] s_set(ps_of(y))) by {
            if relayout(encode_utf8(x), encode_utf8(y)) { lemma_relayout(x, y); } else { lemma_relayout(y, x); }
            lemma_set_same(ps_of(x), ps_of(y));
        }
    }
}

} // verus!
}
