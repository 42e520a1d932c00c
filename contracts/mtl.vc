@module mtl
@items
broadcast use {axiom_str_ext, lemma_push_mat};

pub closed spec fn error_kind(e: ParseError) -> ErrorKind { e.kind }
pub closed spec fn error_line(e: ParseError) -> int { e.line_number as int }

impl<'a> Parser<'a> {
    pub closed spec fn ps(&self) -> PS { PS { t: self.lexer.rest(), n: self.line_number as int } }
    pub closed spec fn wf(&self) -> bool {
        self.lexer.wf() && self.line_number + self.lexer.rest().len() <= isize::MAX + 1
    }
}

pub closed spec fn text_ParseError(e: ParseError) -> Seq<char> { "Parse error at line "@ + shown(e.line_number) + ": "@ + e.message@ }
pub open spec fn showable_ParseError(e: ParseError) -> bool { true }

@fn ParseError::fmt
@spec
    // the contract is that of the trait [C18]

@fn Color::zero
@ret r
@spec
    ensures r == black(), // [C15]

@fn Material::new
@ret r
@spec
    ensures mat_v(r) == fresh(""@), // [C15]
@post
    proof { assert(r.name@ =~= ""@) by { reveal_strlit(""); } }

@fn ParseError::new
@ret r
@spec
    ensures
        r.line_number == line_number, // [C17]
        r.kind == kind, // [C16]

@fn Parser::new
@ret r
@spec
    ensures r.wf(), r.ps().t == tokens(input@),
        r.ps().n == 1, // [C17]
@entry
    proof { broadcast use axiom_str_size; assert(input.spec_bytes().len() <= isize::MAX); lemma_token_count(encode_utf8(input@), 0); }

@fn Parser::error
@ret r
@spec
    ensures r is Err, ev(r->Err_0).kind == kind, // [C16]
        ev(r->Err_0).line == self.ps().n, // [C17]

@fn Parser::peek
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).ps() == old(self).ps(), peeked(old(self).ps().t, r), // [C04]

@fn Parser::next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r { None => !more(old(self).ps()), Some(t) => more(old(self).ps()) && t@ == old(self).ps().t[0] },
        final(self).ps().t == (if r is Some { adv(old(self).ps()).t } else { old(self).ps().t }),
        final(self).ps().n == (if r is Some { adv(old(self).ps()).n } else { old(self).ps().n }), // [C17]

@fn Parser::advance
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).ps().t == (if more(old(self).ps()) { adv(old(self).ps()).t } else { old(self).ps().t }),
        final(self).ps().n == (if more(old(self).ps()) { adv(old(self).ps()).n } else { old(self).ps().n }), // [C17]

@fn Parser::next_string
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_token(old(self).ps()).is_ok(), // [C16]
        r is Ok ==> r->Ok_0@ == s_token(old(self).ps())->Ok_0.0,
        left(final(self).ps(), s_token(old(self).ps())),
        kind(r, s_token(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_token(old(self).ps())), // [C17]

@fn Parser::next_name
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_name(old(self).ps()).is_ok(), // [C14] [C15] [C16]
        r is Ok ==> r->Ok_0@ == s_name(old(self).ps())->Ok_0.0, // [C14] [C15]
        left(final(self).ps(), s_name(old(self).ps())), // [C14] [C15]
        kind(r, s_name(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_name(old(self).ps())), // [C17]

@fn Parser::expect_tag
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_tag(old(self).ps(), tag@)), // [C16]
        left(final(self).ps(), s_tag(old(self).ps(), tag@)),
        kind(r, s_tag(old(self).ps(), tag@)), // [C16]
        line(r, final(self).ps(), s_tag(old(self).ps(), tag@)), // [C17]

@fn Parser::skip_zero_or_more_newlines
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).ps().t == skip_nl(old(self).ps()).t, // [C20]
        final(self).ps().n == skip_nl(old(self).ps()).n, // [C17]
@loop 0
    invariant self.wf(), skip_nl(self.ps()).t == skip_nl(old(self).ps()).t,
        skip_nl(self.ps()).n == skip_nl(old(self).ps()).n, // [C17]
    ensures !at(self.ps(), nl()),
    decreases self.ps().t.len(),

@fn Parser::parse_f64
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_f64(old(self).ps())), // [C15] [C16]
        left(final(self).ps(), s_f64(old(self).ps())), // [C15]
        kind(r, s_f64(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_f64(old(self).ps())), // [C17]

@fn Parser::parse_usize
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_usize(old(self).ps())), // [C15] [C16]
        left(final(self).ps(), s_usize(old(self).ps())), // [C15]
        kind(r, s_usize(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_usize(old(self).ps())), // [C17]

@fn Parser::parse_color
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_color(old(self).ps())), // [C15] [C16]
        left(final(self).ps(), s_color(old(self).ps())), // [C15]
        kind(r, s_color(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_color(old(self).ps())), // [C17]

@fn Parser::parse_ambient_component
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, tag_color(old(self).ps(), "Ka"@)), // [C15] [C16]
        left(final(self).ps(), tag_color(old(self).ps(), "Ka"@)), // [C15]
        kind(r, tag_color(old(self).ps(), "Ka"@)), // [C16]
        line(r, final(self).ps(), tag_color(old(self).ps(), "Ka"@)), // [C17]

@fn Parser::parse_diffuse_component
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, tag_color(old(self).ps(), "Kd"@)), // [C15] [C16]
        left(final(self).ps(), tag_color(old(self).ps(), "Kd"@)), // [C15]
        kind(r, tag_color(old(self).ps(), "Kd"@)), // [C16]
        line(r, final(self).ps(), tag_color(old(self).ps(), "Kd"@)), // [C17]

@fn Parser::parse_specular_component
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, tag_color(old(self).ps(), "Ks"@)), // [C15] [C16]
        left(final(self).ps(), tag_color(old(self).ps(), "Ks"@)), // [C15]
        kind(r, tag_color(old(self).ps(), "Ks"@)), // [C16]
        line(r, final(self).ps(), tag_color(old(self).ps(), "Ks"@)), // [C17]

@fn Parser::parse_emissive_component
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, tag_color(old(self).ps(), "Ke"@)), // [C15] [C16]
        left(final(self).ps(), tag_color(old(self).ps(), "Ke"@)), // [C15]
        kind(r, tag_color(old(self).ps(), "Ke"@)), // [C16]
        line(r, final(self).ps(), tag_color(old(self).ps(), "Ke"@)), // [C17]

@fn Parser::parse_dissolve_component
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, tag_f64(old(self).ps(), "d"@)), // [C15] [C16]
        left(final(self).ps(), tag_f64(old(self).ps(), "d"@)), // [C15]
        kind(r, tag_f64(old(self).ps(), "d"@)), // [C16]
        line(r, final(self).ps(), tag_f64(old(self).ps(), "d"@)), // [C17]

@fn Parser::parse_specular_exponent
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, tag_f64(old(self).ps(), "Ns"@)), // [C15] [C16]
        left(final(self).ps(), tag_f64(old(self).ps(), "Ns"@)), // [C15]
        kind(r, tag_f64(old(self).ps(), "Ns"@)), // [C16]
        line(r, final(self).ps(), tag_f64(old(self).ps(), "Ns"@)), // [C17]

@fn Parser::parse_optical_density
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, tag_f64(old(self).ps(), "Ni"@)), // [C15] [C16]
        left(final(self).ps(), tag_f64(old(self).ps(), "Ni"@)), // [C15]
        kind(r, tag_f64(old(self).ps(), "Ni"@)), // [C16]
        line(r, final(self).ps(), tag_f64(old(self).ps(), "Ni"@)), // [C17]

@fn Parser::parse_map_ambient
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_map(old(self).ps(), "map_Ka"@).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_map(old(self).ps(), "map_Ka"@)->Ok_0.0, // [C15]
        left(final(self).ps(), s_map(old(self).ps(), "map_Ka"@)), // [C15]
        kind(r, s_map(old(self).ps(), "map_Ka"@)), // [C16]
        line(r, final(self).ps(), s_map(old(self).ps(), "map_Ka"@)), // [C17]

@fn Parser::parse_map_diffuse
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_map(old(self).ps(), "map_Kd"@).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_map(old(self).ps(), "map_Kd"@)->Ok_0.0, // [C15]
        left(final(self).ps(), s_map(old(self).ps(), "map_Kd"@)), // [C15]
        kind(r, s_map(old(self).ps(), "map_Kd"@)), // [C16]
        line(r, final(self).ps(), s_map(old(self).ps(), "map_Kd"@)), // [C17]

@fn Parser::parse_map_specular
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_map(old(self).ps(), "map_Ks"@).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_map(old(self).ps(), "map_Ks"@)->Ok_0.0, // [C15]
        left(final(self).ps(), s_map(old(self).ps(), "map_Ks"@)), // [C15]
        kind(r, s_map(old(self).ps(), "map_Ks"@)), // [C16]
        line(r, final(self).ps(), s_map(old(self).ps(), "map_Ks"@)), // [C17]

@fn Parser::parse_map_emissive
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_map(old(self).ps(), "map_Ke"@).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_map(old(self).ps(), "map_Ke"@)->Ok_0.0, // [C15]
        left(final(self).ps(), s_map(old(self).ps(), "map_Ke"@)), // [C15]
        kind(r, s_map(old(self).ps(), "map_Ke"@)), // [C16]
        line(r, final(self).ps(), s_map(old(self).ps(), "map_Ke"@)), // [C17]

@fn Parser::parse_map_specular_exponent
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_map(old(self).ps(), "map_Ns"@).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_map(old(self).ps(), "map_Ns"@)->Ok_0.0, // [C15]
        left(final(self).ps(), s_map(old(self).ps(), "map_Ns"@)), // [C15]
        kind(r, s_map(old(self).ps(), "map_Ns"@)), // [C16]
        line(r, final(self).ps(), s_map(old(self).ps(), "map_Ns"@)), // [C17]

@fn Parser::parse_map_displacement
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_map(old(self).ps(), "disp"@).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_map(old(self).ps(), "disp"@)->Ok_0.0, // [C15]
        left(final(self).ps(), s_map(old(self).ps(), "disp"@)), // [C15]
        kind(r, s_map(old(self).ps(), "disp"@)), // [C16]
        line(r, final(self).ps(), s_map(old(self).ps(), "disp"@)), // [C17]

@fn Parser::parse_map_dissolve
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_map(old(self).ps(), "map_d"@).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_map(old(self).ps(), "map_d"@)->Ok_0.0, // [C15]
        left(final(self).ps(), s_map(old(self).ps(), "map_d"@)), // [C15]
        kind(r, s_map(old(self).ps(), "map_d"@)), // [C16]
        line(r, final(self).ps(), s_map(old(self).ps(), "map_d"@)), // [C17]

@fn Parser::parse_map_decal
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_map(old(self).ps(), "decal"@).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_map(old(self).ps(), "decal"@)->Ok_0.0, // [C15]
        left(final(self).ps(), s_map(old(self).ps(), "decal"@)), // [C15]
        kind(r, s_map(old(self).ps(), "decal"@)), // [C16]
        line(r, final(self).ps(), s_map(old(self).ps(), "decal"@)), // [C17]

@fn Parser::parse_map_bump
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_bump(old(self).ps()).is_ok(), // [C15] [C16]
        r is Ok ==> opt_str(r->Ok_0) == s_bump(old(self).ps())->Ok_0.0, // [C15]
        left(final(self).ps(), s_bump(old(self).ps())), // [C15]
        kind(r, s_bump(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_bump(old(self).ps())), // [C17]
@entry
    proof { lemma_tags(); }

@fn Parser::parse_illumination_model
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_illum(old(self).ps())), // [C15] [C16]
        left(final(self).ps(), s_illum(old(self).ps())), // [C15]
        kind(r, s_illum(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_illum(old(self).ps())), // [C17]

@fn Parser::parse_newmtl
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_newmtl(old(self).ps()).is_ok(), // [C14] [C16]
        r is Ok ==> r->Ok_0@ == s_newmtl(old(self).ps())->Ok_0.0, // [C14]
        left(final(self).ps(), s_newmtl(old(self).ps())), // [C14]
        kind(r, s_newmtl(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_newmtl(old(self).ps())), // [C17]

@fn Parser::parse_material
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_material(old(self).ps()).is_ok(), // [C16]
        r is Ok ==> mat_v(r->Ok_0).name == s_material(old(self).ps())->Ok_0.0.name, // [C14]
        r is Ok ==> mat_v(r->Ok_0).color_ambient == s_material(old(self).ps())->Ok_0.0.color_ambient, // [C15]
        r is Ok ==> mat_v(r->Ok_0).color_diffuse == s_material(old(self).ps())->Ok_0.0.color_diffuse, // [C15]
        r is Ok ==> mat_v(r->Ok_0).color_specular == s_material(old(self).ps())->Ok_0.0.color_specular, // [C15]
        r is Ok ==> mat_v(r->Ok_0).color_emissive == s_material(old(self).ps())->Ok_0.0.color_emissive, // [C15]
        r is Ok ==> mat_v(r->Ok_0).dissolve == s_material(old(self).ps())->Ok_0.0.dissolve, // [C15]
        r is Ok ==> mat_v(r->Ok_0).specular_exponent == s_material(old(self).ps())->Ok_0.0.specular_exponent, // [C15]
        r is Ok ==> mat_v(r->Ok_0).optical_density == s_material(old(self).ps())->Ok_0.0.optical_density, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_ambient == s_material(old(self).ps())->Ok_0.0.map_ambient, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_diffuse == s_material(old(self).ps())->Ok_0.0.map_diffuse, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_specular == s_material(old(self).ps())->Ok_0.0.map_specular, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_emissive == s_material(old(self).ps())->Ok_0.0.map_emissive, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_specular_exponent == s_material(old(self).ps())->Ok_0.0.map_specular_exponent, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_displacement == s_material(old(self).ps())->Ok_0.0.map_displacement, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_dissolve == s_material(old(self).ps())->Ok_0.0.map_dissolve, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_decal == s_material(old(self).ps())->Ok_0.0.map_decal, // [C15]
        r is Ok ==> mat_v(r->Ok_0).illumination_model == s_material(old(self).ps())->Ok_0.0.illumination_model, // [C15]
        r is Ok ==> mat_v(r->Ok_0).map_bump == s_material(old(self).ps())->Ok_0.0.map_bump, // [C15]
        left(final(self).ps(), s_material(old(self).ps())), // [C14]
        kind(r, s_material(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_material(old(self).ps())), // [C17]
@before 0
    let ghost vp_start = self.ps();
    let ghost vp_first = mat_v(material);
@loop 0
    invariant self.wf(),
        s_newmtl(old(self).ps()) is Ok, s_material(old(self).ps()) == body(vp_start, vp_first),
        body(self.ps(), mat_v(material)) == body(vp_start, vp_first), // [C14] [C15]
    ensures material_ends(self.ps()), // [C14]
    decreases self.ps().t.len(),
@begin 0
    let ghost vp_s0 = self.ps();
    let ghost vp_m0 = mat_v(material);
    proof { lemma_tags(); if !material_ends(self.ps()) { lemma_body_step(self.ps(), mat_v(material)); } }

@fn Parser::parse_mtlset
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_mtlset(old(self).ps()).is_ok(), // [C14] [C16]
        r is Ok ==> mats_v(r->Ok_0.materials@) == s_mtlset(old(self).ps())->Ok_0.0, // [C14]
        kind(r, s_mtlset(old(self).ps())), // [C16]
        line(r, final(self).ps(), s_mtlset(old(self).ps())), // [C17]
@entry
    proof { assert(mats_v(Seq::<Material>::empty()) =~= Seq::empty()); }
@loop 0
    invariant self.wf(),
        s_materials(self.ps(), mats_v(materials@)) == s_materials(skip_nl(old(self).ps()), Seq::empty()), // [C14]
    ensures !at(self.ps(), "newmtl"@), // [C14]
    decreases self.ps().t.len(),
@begin 0
    proof { if s_material(self.ps()) is Ok { lemma_material(self.ps()); } }

@fn parse
@ret r
@spec
    ensures exists|s: &str| #[trigger] call_ensures(T::as_ref, (&input,), s) && {
        let want = s_mtlset(PS { t: tokens(s@), n: 1 });
        &&& r.is_ok() == want.is_ok() // [C14] [C16]
        &&& r is Ok ==> mats_v(r->Ok_0.materials@) == want->Ok_0.0 // [C14]
        &&& kind(r, want) // [C16]
        &&& crate::layoutmtl::any_layout(r, s@) // [C20]
        &&& r is Err && want is Err ==> ev(r->Err_0).line == want->Err_0.line // [C17]
    },
@entry
    proof { crate::layoutmtl::lemma_any_layout(); }
