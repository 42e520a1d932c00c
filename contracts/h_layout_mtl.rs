pub mod layoutmtl {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::lexspec::*;
use crate::parsespec::*;
use crate::prelude::*;
use crate::layoutspec::*;
use crate::mtlspec::*;
use crate::mtl::*;
verus! {

// Token sequences that are the same but for repeated line endings are the same MTL file.

pub open spec fn alike<T>(x: Result<(T, PS), Er>, y: Result<(T, PS), Er>) -> bool {
    match (x, y) { (Ok((v, s)), Ok((w, t))) => v == w && same(s, t), (Err(e), Err(f)) => e.kind == f.kind, _ => false }
}
pub open spec fn agree<T>(x: Result<(T, PS), Er>, y: Result<(T, PS), Er>) -> bool {
    match (x, y) { (Ok((v, s)), Ok((w, t))) => v == w, (Err(e), Err(f)) => e.kind == f.kind, _ => false }
}

proof fn lemma_values(a: PS, b: PS)
    requires same(a, b),
    ensures alike(s_f64(a), s_f64(b)), alike(s_usize(a), s_usize(b)), alike(s_name(a), s_name(b)),
{
    lemma_same(a, b);
    axiom_no_newline_number();
}

proof fn lemma_color_same(a: PS, b: PS)
    requires same(a, b),
    ensures alike(s_color(a), s_color(b)),
{
    lemma_values(a, b);
    if s_f64(a) is Ok {
        let (a1, b1) = (s_f64(a)->Ok_0.1, s_f64(b)->Ok_0.1);
        lemma_values(a1, b1);
        if s_f64(a1) is Ok { lemma_values(s_f64(a1)->Ok_0.1, s_f64(b1)->Ok_0.1); }
    }
}

proof fn lemma_step_same(a: PS, b: PS, m: MatV)
    requires same(a, b), !at(a, nl()),
    ensures alike(step(a, m), step(b, m)),
{
    lemma_same(a, b);
    if more(a) {
        lemma_values(adv(a), adv(b));
        lemma_color_same(adv(a), adv(b));
    }
}

proof fn lemma_body_same(a: PS, b: PS, m: MatV)
    requires same(a, b), !at(a, nl()),
    ensures alike(body(a, m), body(b, m)),
    decreases a.t.len(),
{
    hide(step);
    lemma_same(a, b);
    if !material_ends(a) {
        lemma_step_same(a, b, m);
        lemma_body_step(a, m); lemma_body_step(b, m);
        if step(a, m) is Ok {
            let (a1, b1) = (step(a, m)->Ok_0.1, step(b, m)->Ok_0.1);
            lemma_same(a1, b1);
            lemma_skip_nl(a1);
            lemma_body_same(skip_nl(a1), skip_nl(b1), step(a, m)->Ok_0.0);
        }
    }
}

proof fn lemma_material_same(a: PS, b: PS)
    requires same(a, b), at(a, "newmtl"@),
    ensures alike(s_material(a), s_material(b)),
{
    lemma_tags();
    lemma_same(a, b);
    lemma_values(adv(a), adv(b));
    if s_newmtl(a) is Ok {
        let (a1, b1) = (s_newmtl(a)->Ok_0.1, s_newmtl(b)->Ok_0.1);
        lemma_same(a1, b1);
        lemma_skip_nl(a1);
        lemma_body_same(skip_nl(a1), skip_nl(b1), fresh(s_newmtl(a)->Ok_0.0));
    }
}

proof fn lemma_materials_same(a: PS, b: PS, acc: Seq<MatV>)
    requires same(a, b),
    ensures alike(s_materials(a, acc), s_materials(b, acc)),
    decreases a.t.len(),
{
    hide(s_material);
    lemma_same(a, b);
    if at(a, "newmtl"@) {
        lemma_material_same(a, b);
        if s_material(a) is Ok {
            lemma_material(a); lemma_material(b);
            lemma_materials_same(s_material(a)->Ok_0.1, s_material(b)->Ok_0.1, acc.push(s_material(a)->Ok_0.0));
        }
    }
}

/// Layout does not change what an MTL text means.
pub proof fn lemma_mtlset_same(a: PS, b: PS)
    requires akin(a, b),
    ensures agree(s_mtlset(a), s_mtlset(b)), // [C20]
{
    lemma_akin(a, b);
    lemma_materials_same(skip_nl(a), skip_nl(b), Seq::empty());
    if s_materials(skip_nl(a), Seq::empty()) is Ok { lemma_same(s_materials(skip_nl(a), Seq::empty())->Ok_0.1, s_materials(skip_nl(b), Seq::empty())->Ok_0.1); }
}

/// The outcome is the one for the text in any other layout.
pub open spec fn any_layout(r: Result<MaterialSet, ParseError>, x: Str) -> bool {
    forall|y: Str| (relayout(encode_utf8(x), encode_utf8(y)) || relayout(encode_utf8(y), encode_utf8(x))) ==> same_outcome(r, #[trigger] s_mtlset(ps_of(y)))
}
pub open spec fn same_outcome(r: Result<MaterialSet, ParseError>, want: Result<(Seq<MatV>, PS), Er>) -> bool {
    r.is_ok() == want.is_ok() && (r is Ok ==> mats_v(r->Ok_0.materials@) == want->Ok_0.0) && kind(r, want)
}

/// What is right for a text is right for it in any other layout.
pub proof fn lemma_any_layout()
    ensures forall|r: Result<MaterialSet, ParseError>, x: Str| same_outcome(r, s_mtlset(ps_of(x))) ==> #[trigger] any_layout(r, x), // [C20]
{
    assert forall|r: Result<MaterialSet, ParseError>, x: Str| same_outcome(r, s_mtlset(ps_of(x))) implies #[trigger] any_layout(r, x) by {
        assert forall|y: Str| relayout(encode_utf8(x), encode_utf8(y)) || relayout(encode_utf8(y), encode_utf8(x)) implies same_outcome(r, #[trigger] s_mtlset(ps_of(y))) by {
            if relayout(encode_utf8(x), encode_utf8(y)) { lemma_relayout(x, y); } else { lemma_relayout(y, x); }
            lemma_mtlset_same(ps_of(x), ps_of(y));
        }
    }
}

} // verus!
}
