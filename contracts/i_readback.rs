pub mod readback {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::lexspec::*;
use crate::parsespec::*;
use crate::prelude::*;
use crate::objspec::*;
use crate::soundspec::*;
use crate::layoutspec::*;
use crate::obj::*;
verus! {

// ---------------------------------------------------------------------------------------------
// What is displayed reads back: the text of an entry, read as a statement, is that entry.
// ---------------------------------------------------------------------------------------------

/// Words two blanks apart.
pub open spec fn spaced(ws: Seq<Str>) -> Str
    decreases ws.len(),
{ if ws.len() == 0 { Seq::empty() } else if ws.len() == 1 { ws[0] } else { spaced(ws.drop_last()) + "  "@ + ws.last() } }

proof fn lemma_ascii(w: Str)
    requires plain(w),
    ensures encode_utf8(w).len() == w.len(), forall|i: int| 0 <= i < w.len() ==> is_word(#[trigger] encode_utf8(w)[i]),
{
    assert(is_ascii_chars(w)) by { assert forall|i: int| 0 <= i < w.len() implies '\0' <= #[trigger] w[i] <= '\u{7f}' by { assert(plain_char(w[i])); } }
    is_ascii_chars_encode_utf8(w);
    assert forall|i: int| 0 <= i < w.len() implies is_word(#[trigger] encode_utf8(w)[i]) by { assert(plain_char(w[i])); }
}

proof fn lemma_word(a: Seq<u8>, b: Seq<u8>)
    requires forall|i: int| 0 <= i < b.len() ==> is_word(#[trigger] b[i]),
    ensures mode_after(Mode::Word(a), b) == Mode::Word(a + b), out_of(Mode::Word(a), b) =~= Seq::<Seq<u8>>::empty(),
    decreases b.len(),
{
    if b.len() > 0 {
        assert(is_word(b[0]));
        lemma_word(a.push(b[0]), b.drop_first());
        assert(a.push(b[0]) + b.drop_first() =~= a + b);
    } else { assert(a + b =~= a); }
}

proof fn lemma_first_word(b: Seq<u8>)
    requires b.len() > 0, forall|i: int| 0 <= i < b.len() ==> is_word(#[trigger] b[i]),
    ensures mode_after(Mode::Between, b) == Mode::Word(b), out_of(Mode::Between, b) =~= Seq::<Seq<u8>>::empty(),
{
    assert(is_word(b[0]));
    lemma_word(seq![b[0]], b.drop_first());
    assert(seq![b[0]] + b.drop_first() =~= b);
}

pub open spec fn bytes_of(ws: Seq<Str>) -> Seq<Seq<u8>> { ws.map_values(|w: Str| encode_utf8(w)) }

proof fn lemma_two_blanks()
    ensures encode_utf8("  "@) =~= seq![0x20u8, 0x20u8],
{
    reveal_strlit("  ");
    assert("  "@ =~= seq![' ', ' ']);
    is_ascii_chars_encode_utf8("  "@);
}

proof fn lemma_spaced(ws: Seq<Str>)
    requires ws.len() > 0, forall|i: int| 0 <= i < ws.len() ==> plain(#[trigger] ws[i]),
    ensures
        mode_after(Mode::Between, encode_utf8(spaced(ws))) == Mode::Word(encode_utf8(ws.last())),
        out_of(Mode::Between, encode_utf8(spaced(ws))) =~= bytes_of(ws.drop_last()),
    decreases ws.len(),
{
    let l = encode_utf8(ws.last());
    lemma_ascii(ws.last());
    lemma_first_word(l);
    if ws.len() > 1 {
        let front = ws.drop_last();
        lemma_spaced(front);
        lemma_two_blanks();
        let (p, b) = (encode_utf8(spaced(front)), encode_utf8("  "@));
        encode_utf8_concat(spaced(front), "  "@);
        encode_utf8_concat(spaced(front) + "  "@, ws.last());
        assert(encode_utf8(spaced(ws)) =~= p + b + l);
        lemma_append(Mode::Between, p + b, l);
        lemma_append(Mode::Between, p, b);
        let w = encode_utf8(front.last());
        reveal_with_fuel(mode_after, 3);
        reveal_with_fuel(out_of, 3);
        assert(b.drop_first() =~= seq![0x20u8]);
        assert(b.drop_first().drop_first() =~= Seq::<u8>::empty());
        assert(emits(Mode::Word(w), 0x20) =~= seq![w]);
        assert(emits(Mode::Between, 0x20) =~= Seq::<Seq<u8>>::empty());
        assert(out_of(Mode::Word(w), b) =~= seq![w]);
        assert(mode_after(Mode::Word(w), b) == Mode::Between);
        assert(bytes_of(front) =~= bytes_of(front.drop_last()).push(w));
    } else {
        assert(ws.drop_last() =~= Seq::<Str>::empty());
        assert(spaced(ws) == ws[0]);
    }
}

/// Words two blanks apart are read as these words.
pub proof fn lemma_tokens_spaced(ws: Seq<Str>)
    requires ws.len() > 0, forall|i: int| 0 <= i < ws.len() ==> plain(#[trigger] ws[i]),
    ensures tokens(spaced(ws)) =~= ws,
{
    lemma_spaced(ws);
    lemma_tokens_lex(spaced(ws));
    let s = encode_utf8(spaced(ws));
    assert(lex(Mode::Between, s) =~= bytes_of(ws)) by { assert(bytes_of(ws) =~= bytes_of(ws.drop_last()).push(encode_utf8(ws.last()))); }
    assert forall|i: int| 0 <= i < ws.len() implies to_str(bytes_of(ws)[i]) == #[trigger] ws[i] by { encode_utf8_decode_utf8(ws[i]); }
}

proof fn lemma_tag(c: &str)
    requires c@ == "v"@ || c@ == "vt"@ || c@ == "vn"@ || c@ == "p"@ || c@ == "l"@ || c@ == "f"@,
    ensures plain(c@),
{
    reveal_strlit("v"); reveal_strlit("vt"); reveal_strlit("vn"); reveal_strlit("p"); reveal_strlit("l"); reveal_strlit("f");
}

proof fn lemma_two(a: Str, b: Str)
    ensures spaced(seq![a, b]) =~= a + "  "@ + b,
{
    reveal_with_fuel(spaced, 3);
    assert(seq![a, b].drop_last() =~= seq![a]);
}
proof fn lemma_three(a: Str, b: Str, c: Str)
    ensures spaced(seq![a, b, c]) =~= a + "  "@ + b + "  "@ + c,
{
    lemma_two(a, b);
    assert(seq![a, b, c].drop_last() =~= seq![a, b]);
}
proof fn lemma_four(a: Str, b: Str, c: Str, d: Str)
    ensures spaced(seq![a, b, c, d]) =~= a + "  "@ + b + "  "@ + c + "  "@ + d,
{
    lemma_three(a, b, c);
    assert(seq![a, b, c, d].drop_last() =~= seq![a, b, c]);
}
proof fn lemma_five(a: Str, b: Str, c: Str, d: Str, e: Str)
    ensures spaced(seq![a, b, c, d, e]) =~= a + "  "@ + b + "  "@ + c + "  "@ + d + "  "@ + e,
{
    lemma_four(a, b, c, d);
    assert(seq![a, b, c, d, e].drop_last() =~= seq![a, b, c, d]);
}

/// The blanks after a keyword.
proof fn lemma_keyword()
    ensures "v  "@ =~= "v"@ + "  "@, "vt  "@ =~= "vt"@ + "  "@, "vn  "@ =~= "vn"@ + "  "@,
        "p  "@ =~= "p"@ + "  "@, "l  "@ =~= "l"@ + "  "@, "f  "@ =~= "f"@ + "  "@,
{
    reveal_strlit("v"); reveal_strlit("vt"); reveal_strlit("vn"); reveal_strlit("p"); reveal_strlit("l"); reveal_strlit("f"); reveal_strlit("  ");
    reveal_strlit("v  "); reveal_strlit("vt  "); reveal_strlit("vn  "); reveal_strlit("p  "); reveal_strlit("l  "); reveal_strlit("f  ");
}

proof fn lemma_adv(t: Seq<Str>, n: int)
    requires t.len() > 0, plain(t[0]),
    ensures adv(PS { t: t, n: n }) == (PS { t: t.drop_first(), n: n }), t[0] != nl(),
{
    reveal_strlit("\n");
    assert(plain_char(t[0][0]));
    assert(nl()[0] == '\n');
}

proof fn lemma_not_newline(w: Str)
    requires plain(w),
    ensures w != nl(),
{ reveal_strlit("\n"); assert(plain_char(w[0])); assert(nl()[0] == '\n'); }

/// A displayed vertex reads back as that vertex.
pub proof fn readback_vertex(v: Vertex)
    requires !nan(v.x), !nan(v.y), !nan(v.z), !nan(v.w),
    ensures s_vertex(ps_of(text_Vertex(v))) == Ok::<(Vertex, PS), Er>((v, PS { t: Seq::empty(), n: 1 })), // [C18]
{
    let ws = seq!["v"@, shown(v.x), shown(v.y), shown(v.z), shown(v.w)];
    lemma_tag("v");
    axiom_shown_f64(v.x); axiom_shown_f64(v.y); axiom_shown_f64(v.z); axiom_shown_f64(v.w);
    lemma_keyword();
    lemma_five(ws[0], ws[1], ws[2], ws[3], ws[4]);
    assert(text_Vertex(v) =~= spaced(ws));
    lemma_tokens_spaced(ws);
    lemma_adv(ws, 1);
    let w1 = ws.drop_first(); lemma_adv(w1, 1);
    let w2 = w1.drop_first(); lemma_adv(w2, 1);
    let w3 = w2.drop_first(); lemma_adv(w3, 1);
    let w4 = w3.drop_first(); lemma_adv(w4, 1);
    assert(w4.drop_first() =~= Seq::<Str>::empty());
}

/// A displayed texture vertex reads back as that texture vertex.
pub proof fn readback_texture(v: TextureVertex)
    requires !nan(v.u), !nan(v.v), !nan(v.w),
    ensures s_texture(ps_of(text_TextureVertex(v))) == Ok::<(TextureVertex, PS), Er>((v, PS { t: Seq::empty(), n: 1 })), // [C18]
{
    let ws = seq!["vt"@, shown(v.u), shown(v.v), shown(v.w)];
    lemma_tag("vt");
    axiom_shown_f64(v.u); axiom_shown_f64(v.v); axiom_shown_f64(v.w);
    lemma_keyword();
    lemma_four(ws[0], ws[1], ws[2], ws[3]);
    assert(text_TextureVertex(v) =~= spaced(ws));
    lemma_tokens_spaced(ws);
    lemma_adv(ws, 1);
    let w1 = ws.drop_first(); lemma_adv(w1, 1);
    let w2 = w1.drop_first(); lemma_adv(w2, 1);
    let w3 = w2.drop_first(); lemma_adv(w3, 1);
    assert(w3.drop_first() =~= Seq::<Str>::empty());
}

/// A displayed normal reads back as that normal.
pub proof fn readback_normal(v: NormalVertex)
    requires !nan(v.x), !nan(v.y), !nan(v.z),
    ensures s_normal(ps_of(text_NormalVertex(v))) == Ok::<(NormalVertex, PS), Er>((v, PS { t: Seq::empty(), n: 1 })), // [C18]
{
    let ws = seq!["vn"@, shown(v.x), shown(v.y), shown(v.z)];
    lemma_tag("vn");
    axiom_shown_f64(v.x); axiom_shown_f64(v.y); axiom_shown_f64(v.z);
    lemma_keyword();
    lemma_four(ws[0], ws[1], ws[2], ws[3]);
    assert(text_NormalVertex(v) =~= spaced(ws));
    lemma_tokens_spaced(ws);
    lemma_adv(ws, 1);
    let w1 = ws.drop_first(); lemma_adv(w1, 1);
    let w2 = w1.drop_first(); lemma_adv(w2, 1);
    let w3 = w2.drop_first(); lemma_adv(w3, 1);
    assert(w3.drop_first() =~= Seq::<Str>::empty());
}

proof fn lemma_split_none(s: Str)
    requires !s.contains('/'),
    ensures split_on(s, '/') == seq![s],
{}

proof fn lemma_split_at(a: Str, b: Str)
    requires !a.contains('/'),
    ensures split_on(a + "/"@ + b, '/') =~= seq![a] + split_on(b, '/'),
{
    reveal_strlit("/");
    let s = a + "/"@ + b;
    let k = a.len() as int;
    assert(s[k] == '/');
    assert forall|j: int| 0 <= j < k implies s[j] != '/' by { assert(s[j] == a[j]); }
    let f = s.index_of_first('/');
    s.index_of_first_ensures('/');
    assert(f == Some(k)) by { if f->Some_0 != k { } }
    assert(s.subrange(0, k) =~= a);
    assert(s.subrange(k + 1, s.len() as int) =~= b);
}

/// A displayed index is one word.
proof fn lemma_index_plain(i: VTNIndex)
    ensures plain(text_VTNIndex(i)),
{
    reveal_strlit("/"); reveal_strlit("//");
    match i {
        VTNIndex::V(v) => { axiom_shown_usize((v + 1) as usize); }
        VTNIndex::VT(v, t) => { axiom_shown_usize((v + 1) as usize); axiom_shown_usize((t + 1) as usize); }
        VTNIndex::VN(v, n) => { axiom_shown_usize((v + 1) as usize); axiom_shown_usize((n + 1) as usize); }
        VTNIndex::VTN(v, t, n) => { axiom_shown_usize((v + 1) as usize); axiom_shown_usize((t + 1) as usize); axiom_shown_usize((n + 1) as usize); }
    }
}

pub open spec fn size(n: nat) -> Range { (0usize, n as usize) }

/// One displayed field reads back.
proof fn lemma_field(k: usize, m: nat)
    requires k < m <= isize::MAX,
    ensures field(one_based(k), size(m)) == Ok::<Option<usize>, ErrorKind>(Some(k)), !one_based(k).contains('/'),
{
    axiom_shown_usize((k + 1) as usize);
}

proof fn lemma_fields(i: VTNIndex)
    requires showable_VTNIndex(i),
    ensures split_on(text_VTNIndex(i), '/') =~= (match i {
        VTNIndex::V(a) => seq![one_based(a)],
        VTNIndex::VT(a, b) => seq![one_based(a), one_based(b)],
        VTNIndex::VN(a, c) => seq![one_based(a), Seq::empty(), one_based(c)],
        VTNIndex::VTN(a, b, c) => seq![one_based(a), one_based(b), one_based(c)],
    }),
{
    hide(split_on);
    let e = Seq::<char>::empty();
    match i {
        VTNIndex::V(a) => {
            axiom_shown_usize((a + 1) as usize);
            lemma_split_none(one_based(a));
        }
        VTNIndex::VT(a, b) => {
            axiom_shown_usize((a + 1) as usize); axiom_shown_usize((b + 1) as usize);
            lemma_split_none(one_based(b));
            lemma_split_at(one_based(a), one_based(b));
        }
        VTNIndex::VN(a, c) => {
            axiom_shown_usize((a + 1) as usize); axiom_shown_usize((c + 1) as usize);
            lemma_split_none(one_based(c));
            lemma_split_at(e, one_based(c));
            lemma_split_at(one_based(a), e + "/"@ + one_based(c));
            assert(text_VTNIndex(i) =~= one_based(a) + "/"@ + (e + "/"@ + one_based(c))) by { reveal_strlit("/"); reveal_strlit("//"); }
        }
        VTNIndex::VTN(a, b, c) => {
            axiom_shown_usize((a + 1) as usize); axiom_shown_usize((b + 1) as usize); axiom_shown_usize((c + 1) as usize);
            lemma_split_none(one_based(c));
            lemma_split_at(one_based(b), one_based(c));
            lemma_split_at(one_based(a), one_based(b) + "/"@ + one_based(c));
            assert(text_VTNIndex(i) =~= one_based(a) + "/"@ + (one_based(b) + "/"@ + one_based(c)));
        }
    }
}

/// A displayed index reads back as that index, in an object that has the entries it names.
pub proof fn readback_index(i: VTNIndex, v: nat, t: nat, n: nat)
    requires corner_ok(i, v, t, n), v <= isize::MAX, t <= isize::MAX, n <= isize::MAX,
    ensures vtn_of(text_VTNIndex(i), size(v), size(t), size(n)) == Ok::<VTNIndex, ErrorKind>(i), // [C18]
{
    hide(split_on); hide(text_VTNIndex); hide(field);
    lemma_fields(i);
    match i {
        VTNIndex::V(a) => { lemma_field(a, v); }
        VTNIndex::VT(a, b) => { lemma_field(a, v); lemma_field(b, t); }
        VTNIndex::VN(a, c) => { lemma_field(a, v); lemma_field(c, n); }
        VTNIndex::VTN(a, b, c) => { lemma_field(a, v); lemma_field(b, t); lemma_field(c, n); }
    }
    assert(field(Seq::empty(), size(t)) == Ok::<Option<usize>, ErrorKind>(None)) by { reveal(field); }
}

/// A displayed element of a parsed object, read as a statement of an object with the same vertex data, is that element.
pub proof fn readback_element(e: Element, v: nat, t: nat, n: nat)
    requires elem_ok(e, v, t, n), elem_form(e), v <= isize::MAX, t <= isize::MAX, n <= isize::MAX,
    ensures s_elements(ps_of(text_Element(e)), size(v), size(t), size(n), Seq::empty()) == Ok::<(Seq<Element>, PS), Er>((seq![e], PS { t: Seq::empty(), n: 1 })), // [C18]
{
    hide(vtn_of); hide(plain); hide(tokens); hide(spaced); hide(segments); hide(fan);
    let (rv, rt, rn) = (size(v), size(t), size(n));
    lemma_keyword();
    lemma_tag("p"); lemma_tag("l"); lemma_tag("f");
    reveal_strlit("p"); reveal_strlit("l"); reveal_strlit("f");
    assert("p"@[0] == 'p' && "l"@[0] == 'l' && "f"@[0] == 'f');
    match e {
        Element::Point(a) => {
            let ws = seq!["p"@, text_VTNIndex(a)];
            lemma_index_plain(a);
            lemma_two(ws[0], ws[1]);
            assert(text_Element(e) =~= spaced(ws));
            lemma_tokens_spaced(ws);
            lemma_adv(ws, 1);
            let w1 = ws.drop_first(); lemma_adv(w1, 1);
            assert(w1.drop_first() =~= Seq::<Str>::empty());
            axiom_shown_usize((a->V_0 + 1) as usize);
            assert(Seq::<Element>::empty().push(e) =~= seq![e]);
        }
        Element::Line(a, b) => {
            let ws = seq!["l"@, text_VTNIndex(a), text_VTNIndex(b)];
            lemma_index_plain(a); lemma_index_plain(b);
            readback_index(a, v, t, n); readback_index(b, v, t, n);
            lemma_three(ws[0], ws[1], ws[2]);
            assert(text_Element(e) =~= spaced(ws));
            lemma_tokens_spaced(ws);
            lemma_adv(ws, 1);
            let w1 = ws.drop_first(); lemma_adv(w1, 1);
            let w2 = w1.drop_first(); lemma_adv(w2, 1);
            assert(w2.drop_first() =~= Seq::<Str>::empty());
            let is = Seq::<VTNIndex>::empty().push(a).push(b);
            assert(is.len() == 2 && is[0] == a && is[1] == b);
            assert(one_form(is));
            assert(Seq::<Element>::empty() + segments(is) =~= seq![e]) by { reveal(segments); }
        }
        Element::Face(a, b, c) => {
            let ws = seq!["f"@, text_VTNIndex(a), text_VTNIndex(b), text_VTNIndex(c)];
            lemma_index_plain(a); lemma_index_plain(b); lemma_index_plain(c);
            readback_index(a, v, t, n); readback_index(b, v, t, n); readback_index(c, v, t, n);
            lemma_four(ws[0], ws[1], ws[2], ws[3]);
            assert(text_Element(e) =~= spaced(ws));
            lemma_tokens_spaced(ws);
            lemma_adv(ws, 1);
            let w1 = ws.drop_first(); lemma_adv(w1, 1);
            let w2 = w1.drop_first(); lemma_adv(w2, 1);
            let w3 = w2.drop_first(); lemma_adv(w3, 1);
            assert(w3.drop_first() =~= Seq::<Str>::empty());
            reveal_with_fuel(s_vtns, 5);
            let is = Seq::<VTNIndex>::empty().push(a).push(b).push(c);
            assert(is.len() == 3 && is[0] == a && is[1] == b && is[2] == c);
            assert(one_form(is));
            assert(Seq::<Element>::empty() + fan(is) =~= seq![e]) by { reveal(fan); }
        }
    }
}

} // verus!
}
