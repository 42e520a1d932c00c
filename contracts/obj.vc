@module obj
@items
broadcast use {axiom_str_ext, lemma_push_group, lemma_push_smooth, lemma_push_opt_str, lemma_push_str, lemma_push_obj};

impl<'a> Parser<'a> {
    pub closed spec fn ps(&self) -> PS { PS { t: self.lexer.rest(), n: self.line_number as int } }
    pub closed spec fn wf(&self) -> bool {
        self.lexer.wf() && self.line_number + self.lexer.rest().len() <= isize::MAX + 1
    }
    pub proof fn lemma_wf(&self)
        requires self.wf(),
        ensures self.ps().n + self.ps().t.len() <= isize::MAX + 1,
    {}
}

pub open spec fn room(x: usize, s: PS) -> bool { x + s.t.len() <= isize::MAX + 1 }
pub open spec fn base(v: usize, t: usize, n: usize) -> Base { Base { v: v as int, t: t as int, n: n as int } }

// What each value looks like when it is displayed.
pub open spec fn one_based(k: usize) -> Seq<char> { shown((k + 1) as usize) }
pub open spec fn text_Vertex(v: Vertex) -> Seq<char> { "v  "@ + shown(v.x) + "  "@ + shown(v.y) + "  "@ + shown(v.z) + "  "@ + shown(v.w) }
pub open spec fn showable_Vertex(v: Vertex) -> bool { true }
pub open spec fn text_TextureVertex(v: TextureVertex) -> Seq<char> { "vt  "@ + shown(v.u) + "  "@ + shown(v.v) + "  "@ + shown(v.w) }
pub open spec fn showable_TextureVertex(v: TextureVertex) -> bool { true }
pub open spec fn text_NormalVertex(v: NormalVertex) -> Seq<char> { "vn  "@ + shown(v.x) + "  "@ + shown(v.y) + "  "@ + shown(v.z) }
pub open spec fn showable_NormalVertex(v: NormalVertex) -> bool { true }
pub open spec fn text_VTNIndex(i: VTNIndex) -> Seq<char> {
    match i {
        VTNIndex::V(v) => one_based(v),
        VTNIndex::VT(v, t) => one_based(v) + "/"@ + one_based(t),
        VTNIndex::VN(v, n) => one_based(v) + "//"@ + one_based(n),
        VTNIndex::VTN(v, t, n) => one_based(v) + "/"@ + one_based(t) + "/"@ + one_based(n),
    }
}
pub open spec fn showable_VTNIndex(i: VTNIndex) -> bool {
    match i {
        VTNIndex::V(v) => v < usize::MAX,
        VTNIndex::VT(v, t) => v < usize::MAX && t < usize::MAX,
        VTNIndex::VN(v, n) => v < usize::MAX && n < usize::MAX,
        VTNIndex::VTN(v, t, n) => v < usize::MAX && t < usize::MAX && n < usize::MAX,
    }
}
pub open spec fn text_Element(e: Element) -> Seq<char> {
    match e {
        Element::Point(a) => "p  "@ + text_VTNIndex(a),
        Element::Line(a, b) => "l  "@ + text_VTNIndex(a) + "  "@ + text_VTNIndex(b),
        Element::Face(a, b, c) => "f  "@ + text_VTNIndex(a) + "  "@ + text_VTNIndex(b) + "  "@ + text_VTNIndex(c),
    }
}
pub open spec fn showable_Element(e: Element) -> bool {
    match e {
        Element::Point(a) => showable_VTNIndex(a),
        Element::Line(a, b) => showable_VTNIndex(a) && showable_VTNIndex(b),
        Element::Face(a, b, c) => showable_VTNIndex(a) && showable_VTNIndex(b) && showable_VTNIndex(c),
    }
}
pub open spec fn text_Group(g: Group) -> Seq<char> { g.0@ }
pub open spec fn showable_Group(g: Group) -> bool { true }
pub open spec fn text_SmoothingGroup(g: SmoothingGroup) -> Seq<char> { if g.0 == 0 { "off"@ } else { shown(g.0) } }
pub open spec fn showable_SmoothingGroup(g: SmoothingGroup) -> bool { true }
pub open spec fn text_ParseError(e: ParseError) -> Seq<char> { "Parse error at line "@ + shown(e.line_number) + ": "@ + e.message@ }
pub open spec fn showable_ParseError(e: ParseError) -> bool { true }
#[verifier::opaque]
pub open spec fn text_set<T: VpDisplay>(s: Seq<T>, name: Seq<char>) -> Seq<char> {
    "    "@ + name + " set:\n"@
        + (if s.len() == 0 { "        data: []\n"@ } else { "        data: [("@ + s[0].text() + ") ... ("@ + s[s.len() - 1].text() + ")]\n"@ })
        + "        length: "@ + shown(s.len() as usize) + "\n"@
}
#[verifier::opaque]
pub open spec fn text_Object(o: Object) -> Seq<char> {
    "Object {\n"@ + ("    name: "@ + o.name@ + "\n"@)
        + text_set(o.vertex_set@, "vertex"@)
        + text_set(o.texture_vertex_set@, "texture vertex"@)
        + text_set(o.normal_vertex_set@, "normal vertex"@)
        + text_set(o.group_set@, "group"@)
        + text_set(o.smoothing_group_set@, "smoothing group"@)
        + text_set(o.element_set@, "element"@)
        + "}}\n"@
}
pub open spec fn showable_Object(o: Object) -> bool { forall|k: int| 0 <= k < o.element_set@.len() ==> showable_Element(#[trigger] o.element_set@[k]) }
pub open spec fn text_objects(s: Seq<Object>) -> Seq<char>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { text_objects(s.drop_last()) + text_Object(s.last()) + "\n"@ } }
pub open spec fn text_ObjectSet(s: ObjectSet) -> Seq<char> { "ObjectSet {\n"@ + text_objects(s.objects@) + "}\n"@ }
pub open spec fn showable_ObjectSet(s: ObjectSet) -> bool { forall|k: int| 0 <= k < s.objects@.len() ==> showable_Object(#[trigger] s.objects@[k]) }

/// What is parsed can be displayed: no index is so large that adding one overflows.
pub proof fn lemma_showable(s: ObjectSet)
    requires sound_set(set_v(s).objects),
    ensures showable_ObjectSet(s),
{
    assert forall|k: int| 0 <= k < s.objects@.len() implies showable_Object(#[trigger] s.objects@[k]) by {
        let o = s.objects@[k];
        assert(sound_obj(set_v(s).objects[k]));
        let (a, b, c) = (o.vertex_set.len(), o.texture_vertex_set.len(), o.normal_vertex_set.len());
        assert forall|j: int| 0 <= j < o.element_set@.len() implies showable_Element(#[trigger] o.element_set@[j]) by {
            assert(elem_ok(o.element_set@[j], o.vertex_set@.len(), o.texture_vertex_set@.len(), o.normal_vertex_set@.len()));
        }
    }
}

@fn Vertex::fmt
@spec
    // the contract is that of the trait [C18]

@fn TextureVertex::fmt
@spec
    // the contract is that of the trait [C18]

@fn NormalVertex::fmt
@spec
    // the contract is that of the trait [C18]

@fn VTNIndex::fmt
@spec
    // the contract is that of the trait [C18]

@fn Element::fmt
@spec
    // the contract is that of the trait [C18]

@fn Group::fmt
@spec
    // the contract is that of the trait [C18]

@fn SmoothingGroup::fmt
@spec
    // the contract is that of the trait [C18]

@fn Object::fmt
@spec
    // the contract is that of the trait [C18]

@fn ParseError::fmt
@spec
    // the contract is that of the trait [C18]

@fn DisplayObjectCompositor::compose_set
@ret r
@spec
    requires forall|k: int| 0 <= k < set@.len() ==> #[trigger] set@[k].showable(), // [C18] [C01]
    ensures r@ =~= text_set(set@, name@), // [C18]
@entry
    proof { reveal(text_set); }

@fn DisplayObjectCompositor::compose
@ret r
@spec
    requires showable_Object(*object), // [C18] [C01]
    ensures r@ =~= text_Object(*object), // [C18]
@entry
    proof { reveal(text_Object); }

@fn ObjectSet::fmt
@spec
    // the contract is that of the trait [C18]
@iter 0 it
@loop 0
    invariant showable_ObjectSet(*self), it.index@ <= self.objects@.len(),
        string@ =~= "ObjectSet {\n"@ + text_objects(self.objects@.subrange(0, it.index@)), // [C18]
@begin 0
    proof { assert(self.objects@.subrange(0, it.index@ + 1).drop_last() =~= self.objects@.subrange(0, it.index@)); }
@end 0
    proof {
        let a = self.objects@.subrange(0, it.index@ + 1);
        assert(a.last() == self.objects@[it.index@]);
        assert(text_objects(a) == text_objects(a.drop_last()) + text_Object(a.last()) + "\n"@);
    }
@after 0
    proof { assert(self.objects@.subrange(0, self.objects@.len() as int) =~= self.objects@); }

@fn VTNIndex::has_same_type_as
@ret r
@spec
    ensures r == same_form(*self, *other), // [C07] [C19]

@fn Object::get_vtn_triple
@ret r
@spec
    ensures r == (match index { // [C19]
        VTNIndex::V(v) => if v < self.vertex_set@.len() { Some(VTNTriple::V(&self.vertex_set@[v as int])) } else { None }, // [C19]
        VTNIndex::VT(v, t) => if v < self.vertex_set@.len() && t < self.texture_vertex_set@.len() { Some(VTNTriple::VT(&self.vertex_set@[v as int], &self.texture_vertex_set@[t as int])) } else { None }, // [C19]
        VTNIndex::VN(v, n) => if v < self.vertex_set@.len() && n < self.normal_vertex_set@.len() { Some(VTNTriple::VN(&self.vertex_set@[v as int], &self.normal_vertex_set@[n as int])) } else { None }, // [C19]
        VTNIndex::VTN(v, t, n) => if v < self.vertex_set@.len() && t < self.texture_vertex_set@.len() && n < self.normal_vertex_set@.len() { Some(VTNTriple::VTN(&self.vertex_set@[v as int], &self.texture_vertex_set@[t as int], &self.normal_vertex_set@[n as int])) } else { None }, // [C19]
    }), // [C19]

@fn Group::default
@ret r
@spec
    ensures r.0@ == "default"@, // [C10]

@fn SmoothingGroup::default
@ret r
@spec
    ensures r.0 == 0, // [C10]

@fn ParseError::new
@ret r
@spec
    ensures
        r.line_number == line_number, // [C17]
        r.kind == kind, // [C13]

@fn triangulate
@ret r
@spec
    requires vtn_indices@.len() >= 3, // [C08] [C01]
    ensures final(elements)@ =~= old(elements)@ + fan(vtn_indices@), // [C08]
        r == vtn_indices@.len() - 2, // [C08]
@loop 0
    invariant vtn_indices@.len() >= 3, vertex0 == vtn_indices@[0],
        elements@ =~= old(elements)@ + fan(vtn_indices@).subrange(0, i as int), // [C08]

@fn verify_vtn_indices
@ret r
@spec
    ensures r == one_form(vtn_indices@), // [C07]
@loop 0
    invariant forall|k: int| 0 <= k < i && k < vtn_indices@.len() ==> same_form(#[trigger] vtn_indices@[k], vtn_indices@[0]), // [C07]

@fn Parser::new
@ret r
@spec
    ensures r.wf(), r.ps().t == tokens(input@),
        r.ps().n == 1, // [C17]
@entry
    proof { broadcast use axiom_str_size; assert(input.spec_bytes().len() <= isize::MAX); lemma_token_count(encode_utf8(input@), 0); }

@fn Parser::error
@ret r
@spec
    ensures r is Err, ev(r->Err_0).kind == kind, // [C13]
        ev(r->Err_0).line == self.ps().n, // [C17]

@fn Parser::peek
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).ps() == old(self).ps(), peeked(old(self).ps().t, r), // [C04]

@fn Parser::next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r { None => !more(old(self).ps()), Some(t) => more(old(self).ps()) && t@ == old(self).ps().t[0] },
        final(self).ps().t == (if r is Some { adv(old(self).ps()).t } else { old(self).ps().t }),
        final(self).ps().n == (if r is Some { adv(old(self).ps()).n } else { old(self).ps().n }), // [C17]

@fn Parser::advance
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).ps().t == (if more(old(self).ps()) { adv(old(self).ps()).t } else { old(self).ps().t }),
        final(self).ps().n == (if more(old(self).ps()) { adv(old(self).ps()).n } else { old(self).ps().n }), // [C17]

@fn Parser::next_string
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_token(old(self).ps()).is_ok(), r is Ok ==> r->Ok_0@ == s_token(old(self).ps())->Ok_0.0,
        left(final(self).ps(), s_token(old(self).ps())),
        kind(r, s_token(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_token(old(self).ps())), // [C17]
        r is Err ==> final(self).ps() == old(self).ps(),

@fn Parser::expect_tag
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_tag(old(self).ps(), tag@)),
        left(final(self).ps(), s_tag(old(self).ps(), tag@)),
        kind(r, s_tag(old(self).ps(), tag@)), // [C13]
        line(r, final(self).ps(), s_tag(old(self).ps(), tag@)), // [C17]

@fn Parser::parse_f64
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_f64(old(self).ps())), // [C09] [C13]
        left(final(self).ps(), s_f64(old(self).ps())), // [C09]
        kind(r, s_f64(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_f64(old(self).ps())), // [C17]

@fn Parser::parse_isize
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_isize(old(self).ps())), // [C06] [C13]
        left(final(self).ps(), s_isize(old(self).ps())), // [C08]
        kind(r, s_isize(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_isize(old(self).ps())), // [C17]

@fn Parser::try_once
@ret r
@spec
    requires old(self).wf(), forall|s: &str| call_requires(parser, (s,)),
    ensures final(self).wf(),
        !more(old(self).ps()) ==> r is None,
        more(old(self).ps()) ==> exists|s: &str| s@ == old(self).ps().t[0] && call_ensures(parser, (s,), r),
        final(self).ps().t == (if r is Some { adv(old(self).ps()).t } else { old(self).ps().t }), // [C09]
        final(self).ps().n == (if r is Some { adv(old(self).ps()).n } else { old(self).ps().n }), // [C17]

@fn Parser::parse_vertex
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_vertex(old(self).ps())), // [C09] [C13]
        left(final(self).ps(), s_vertex(old(self).ps())), // [C09]
        kind(r, s_vertex(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_vertex(old(self).ps())), // [C17]
@closure 0
    -> (o: Option<f64>) ensures o == parse_spec::<f64>(st@)

@fn Parser::parse_texture_vertex
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_texture(old(self).ps())), // [C09] [C13]
        left(final(self).ps(), s_texture(old(self).ps())), // [C09]
        kind(r, s_texture(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_texture(old(self).ps())), // [C17]
@closure 0
    -> (o: Option<f64>) ensures o == parse_spec::<f64>(st@)
@closure 1
    -> (o: Option<f64>) ensures o == parse_spec::<f64>(st@)

@fn Parser::parse_normal_vertex
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_normal(old(self).ps())), // [C09] [C13]
        left(final(self).ps(), s_normal(old(self).ps())), // [C09]
        kind(r, s_normal(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_normal(old(self).ps())), // [C17]

@fn Parser::skip_zero_or_more_newlines
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        final(self).ps().t == skip_nl(old(self).ps()).t, // [C20]
        final(self).ps().n == skip_nl(old(self).ps()).n, // [C17]
@entry
@loop 0
    invariant self.wf(), skip_nl(self.ps()).t == skip_nl(old(self).ps()).t,
        skip_nl(self.ps()).n == skip_nl(old(self).ps()).n, // [C17]
    ensures !at(self.ps(), nl()),
    decreases self.ps().t.len(),

@fn Parser::skip_one_or_more_newlines
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        gives(r, s_newlines(old(self).ps())),
        left(final(self).ps(), s_newlines(old(self).ps())),
        kind(r, s_newlines(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_newlines(old(self).ps())), // [C17]

@fn Parser::parse_object_name
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_object_name(old(self).ps()).is_ok(), // [C12] [C13]
        r is Ok ==> r->Ok_0@ == s_object_name(old(self).ps())->Ok_0.0, // [C12]
        left(final(self).ps(), s_object_name(old(self).ps())), // [C12]
        kind(r, s_object_name(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_object_name(old(self).ps())), // [C17]

@fn Parser::calculate_index
@ret r
@spec
    requires range_ok(value_range),
    ensures
        r.is_ok() == resolve(value_range, parsed_value as int).is_some(), // [C06]
        r is Ok ==> r->Ok_0 == resolve(value_range, parsed_value as int)->Some_0, // [C06]
        r is Ok ==> r->Ok_0 < value_range.1 - value_range.0, // [C05]
        r is Err ==> ev(r->Err_0).kind == ErrorKind::VTNIndexOutOfRange, // [C13]
        r is Err ==> ev(r->Err_0).line == self.ps().n, // [C17]

@fn Parser::parse_vtn_index
@ret r
@spec
    requires old(self).wf(), range_ok(vertex_index_range), range_ok(texture_index_range), range_ok(normal_index_range),
    ensures final(self).wf(),
        gives(r, s_vtn(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range)), // [C06] [C07]
        r is Ok ==> corner_ok(r->Ok_0, width(vertex_index_range), width(texture_index_range), width(normal_index_range)), // [C05]
        left(final(self).ps(), s_vtn(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range)), // [C08]
        kind(r, s_vtn(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range)), // [C13]
        line(r, final(self).ps(), s_vtn(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range)), // [C17]
@closure 0
    -> (o: $RET)
        requires range_ok(value_range),
        ensures
            o.is_ok() == field(split@, value_range).is_ok(), // [C06] [C07]
            o is Ok ==> o->Ok_0 == field(split@, value_range)->Ok_0, // [C06] [C07]
            o is Err ==> ev(o->Err_0).kind == field(split@, value_range)->Err_0, // [C13]
            o is Err ==> ev(o->Err_0).line == self.ps().n, // [C17]

@fn Parser::parse_vtn_indices
@ret r
@spec
    requires old(self).wf(), range_ok(vertex_index_range), range_ok(texture_index_range), range_ok(normal_index_range),
    ensures final(self).wf(),
        r.is_ok() == s_vtns(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(vtn_indices)@).is_ok(), // [C08] [C13]
        r is Ok ==> final(vtn_indices)@ == s_vtns(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(vtn_indices)@)->Ok_0.0, // [C08]
        r is Ok ==> r->Ok_0 == final(vtn_indices)@.len() - old(vtn_indices)@.len(),
        left(final(self).ps(), s_vtns(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(vtn_indices)@)), // [C08]
        kind(r, s_vtns(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(vtn_indices)@)), // [C13]
        line(r, final(self).ps(), s_vtns(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(vtn_indices)@)), // [C17]
@entry
    proof { self.lemma_wf(); }
@loop 0
    invariant self.wf(), range_ok(vertex_index_range), range_ok(texture_index_range), range_ok(normal_index_range),
        s_vtns(self.ps(), vertex_index_range, texture_index_range, normal_index_range, vtn_indices@)
            == s_vtns(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(vtn_indices)@), // [C08]
        old(vtn_indices)@.len() <= vtn_indices@.len(),
        indices_parsed == vtn_indices@.len() - old(vtn_indices)@.len(),
        vtn_indices@.len() - old(vtn_indices)@.len() + self.ps().t.len() == old(self).ps().t.len() <= isize::MAX + 1,
    ensures !more(self.ps()) || at(self.ps(), nl()),
    decreases self.ps().t.len(),

@fn Parser::parse_point
@ret r
@spec
    requires old(self).wf(), range_ok(vertex_index_range),
    ensures final(self).wf(),
        r.is_ok() == s_points(old(self).ps(), vertex_index_range, old(elements)@).is_ok(), // [C07] [C08] [C13]
        r is Ok ==> final(elements)@ == s_points(old(self).ps(), vertex_index_range, old(elements)@)->Ok_0.0, // [C08]
        r is Ok ==> r->Ok_0 == final(elements)@.len() - old(elements)@.len(), // [C10]
        left(final(self).ps(), s_points(old(self).ps(), vertex_index_range, old(elements)@)), // [C08]
        kind(r, s_points(old(self).ps(), vertex_index_range, old(elements)@)), // [C13]
        line(r, final(self).ps(), s_points(old(self).ps(), vertex_index_range, old(elements)@)), // [C17]
@entry
    proof { self.lemma_wf(); }
@before 0
    let ghost vp_s = self.ps();
    let ghost vp_e = elements@;
@loop 0
    invariant_except_break self.wf(),
        s_more_points(self.ps(), vertex_index_range, elements@) == s_points(old(self).ps(), vertex_index_range, old(elements)@), // [C08]
    invariant range_ok(vertex_index_range), self.wf(),
        old(elements)@.len() <= elements@.len(),
        elements_parsed == elements@.len() - old(elements)@.len(),
        elements@.len() - old(elements)@.len() + self.ps().t.len() <= isize::MAX + 1,
    ensures
        s_points(old(self).ps(), vertex_index_range, old(elements)@) == Ok::<(Seq<Element>, PS), Er>((elements@, self.ps())), // [C08]
    decreases self.ps().t.len(),

@fn Parser::parse_line
@ret r
@spec
    requires old(self).wf(), range_ok(vertex_index_range), range_ok(texture_index_range), range_ok(normal_index_range),
    ensures final(self).wf(),
        r.is_ok() == s_line(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@).is_ok(), // [C08] [C07]
        r is Ok ==> final(elements)@ =~= s_line(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)->Ok_0.0, // [C08]
        r is Ok ==> r->Ok_0 == final(elements)@.len() - old(elements)@.len(), // [C10]
        left(final(self).ps(), s_line(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C08]
        kind(r, s_line(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C13]
        line(r, final(self).ps(), s_line(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C17]
@loop 0
    invariant vtn_indices@.len() >= 2,
        elements@ =~= old(elements)@ + segments(vtn_indices@).subrange(0, i as int), // [C08]

@fn Parser::parse_face
@ret r
@spec
    requires old(self).wf(), range_ok(vertex_index_range), range_ok(texture_index_range), range_ok(normal_index_range),
    ensures final(self).wf(),
        r.is_ok() == s_face(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@).is_ok(), // [C08] [C07]
        r is Ok ==> final(elements)@ =~= s_face(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)->Ok_0.0, // [C08]
        r is Ok ==> r->Ok_0 == final(elements)@.len() - old(elements)@.len(), // [C10]
        left(final(self).ps(), s_face(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C08]
        kind(r, s_face(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C13]
        line(r, final(self).ps(), s_face(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C17]

@fn Parser::parse_elements
@ret r
@spec
    requires old(self).wf(), range_ok(vertex_index_range), range_ok(texture_index_range), range_ok(normal_index_range),
    ensures final(self).wf(),
        r.is_ok() == s_elements(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@).is_ok(), // [C08] [C13]
        r is Ok ==> final(elements)@ == s_elements(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)->Ok_0.0, // [C08]
        r is Ok ==> r->Ok_0 == final(elements)@.len() - old(elements)@.len(), // [C10]
        left(final(self).ps(), s_elements(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C08]
        kind(r, s_elements(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C13]
        line(r, final(self).ps(), s_elements(old(self).ps(), vertex_index_range, texture_index_range, normal_index_range, old(elements)@)), // [C17]

@fn Parser::parse_groups
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_groups(old(self).ps(), group_names(old(groups)@)).is_ok(), // [C10] [C13]
        r is Ok ==> group_names(final(groups)@) == s_groups(old(self).ps(), group_names(old(groups)@))->Ok_0.0, // [C10]
        r is Ok ==> r->Ok_0 == final(groups)@.len() - old(groups)@.len(), // [C10]
        left(final(self).ps(), s_groups(old(self).ps(), group_names(old(groups)@))), // [C10]
        kind(r, s_groups(old(self).ps(), group_names(old(groups)@))), // [C13]
        line(r, final(self).ps(), s_groups(old(self).ps(), group_names(old(groups)@))), // [C17]
@entry
    proof { self.lemma_wf(); }
@loop 0
    invariant_except_break
        words(self.ps(), group_names(groups@)) == words(adv(old(self).ps()), group_names(old(groups)@)), // [C10]
    invariant self.wf(), at(old(self).ps(), "g"@),
        old(groups)@.len() <= groups@.len(),
        groups_parsed == groups@.len() - old(groups)@.len(), // [C10]
        groups@.len() - old(groups)@.len() + self.ps().t.len() <= isize::MAX + 1,
    ensures
        words(adv(old(self).ps()), group_names(old(groups)@)) == (group_names(groups@), self.ps()), // [C10]
    decreases self.ps().t.len(),

@fn Parser::parse_smoothing_group
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_smoothing(old(self).ps()).is_ok(), // [C10] [C13]
        r is Ok ==> smooth_names(final(smoothing_groups)@) == smooth_names(old(smoothing_groups)@).push(s_smoothing(old(self).ps())->Ok_0.0), // [C10]
        r is Ok ==> r->Ok_0 == 1,
        left(final(self).ps(), s_smoothing(old(self).ps())), // [C10]
        kind(r, s_smoothing(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_smoothing(old(self).ps())), // [C17]
@entry

@fn Parser::parse_material_name
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_material(old(self).ps()).is_ok(), // [C11] [C13]
        r is Ok ==> opt_strs(final(material_names)@) == opt_strs(old(material_names)@).push(Some(s_material(old(self).ps())->Ok_0.0)), // [C11]
        r is Ok ==> r->Ok_0 == 1,
        left(final(self).ps(), s_material(old(self).ps())), // [C11]
        kind(r, s_material(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_material(old(self).ps())), // [C17]
@entry

@fn Parser::parse_shape_entries
@spec
    requires old(shape_entry_table)@.len() == 0,
        tiles(group_entry_table@, elements@.len() as int), tiles(smoothing_group_entry_table@, elements@.len() as int),
        forall|k: int| 0 <= k < group_entry_table@.len() ==> (#[trigger] group_entry_table@[k]).1.0 <= group_entry_table@[k].1.1,
    ensures
        final(shape_entry_table)@.len() == elements@.len(), // [C10]
        shapes_of_groups(final(shape_entry_table)@, group_entry_table@, group_entry_table@.len() as int), // [C10]
        shapes_of_smoothing(final(shape_entry_table)@, smoothing_group_entry_table@, smoothing_group_entry_table@.len() as int), // [C10]
@iter 0 it
@loop 0
    invariant
        tiles(group_entry_table@, elements@.len() as int), it.index@ <= group_entry_table@.len(),
        forall|k: int| 0 <= k < group_entry_table@.len() ==> (#[trigger] group_entry_table@[k]).1.0 <= group_entry_table@[k].1.1,
        shape_entry_table@.len() == (if it.index@ == 0 { 0 } else { group_entry_table@[it.index@ - 1].0.1 as int }),
        shapes_of_groups(shape_entry_table@, group_entry_table@, it.index@), // [C10]
@before 1
    proof { assert(groups@ =~= upto(min_group_index as int, max_group_index as int)); }
@loop 1
    invariant
        tiles(group_entry_table@, elements@.len() as int), 0 <= it.index@ < group_entry_table@.len(),
        group_entry_table@[it.index@] == ((min_element_index, max_element_index), (min_group_index, max_group_index)),
        groups@ == upto(min_group_index as int, max_group_index as int), // [C10]
        shape_entry_table@.len() == i,
        min_element_index <= max_element_index,
        shapes_of_groups(shape_entry_table@, group_entry_table@, it.index@), // [C10]
        forall|k: int| min_element_index <= k < i ==> in_group(#[trigger] shape_entry_table@[k], k, (min_group_index, max_group_index)), // [C10]
@end 1
    proof { lemma_tiles_order(group_entry_table@, elements@.len() as int); assert(shape_entry_table@.last().groups@ =~= groups@); }

@iter 2 it
@loop 2
    invariant
        tiles(smoothing_group_entry_table@, elements@.len() as int), it.index@ <= smoothing_group_entry_table@.len(),
        shape_entry_table@.len() == elements@.len(), // [C10]
        shapes_of_groups(shape_entry_table@, group_entry_table@, group_entry_table@.len() as int), // [C10]
        tiles(group_entry_table@, elements@.len() as int),
        shapes_of_smoothing(shape_entry_table@, smoothing_group_entry_table@, it.index@), // [C10]
@loop 3
    invariant
        tiles(smoothing_group_entry_table@, elements@.len() as int), 0 <= it.index@ < smoothing_group_entry_table@.len(),
        smoothing_group_entry_table@[it.index@] == ((min_element_index, max_element_index), smoothing_group_index),
        max_element_index <= elements@.len(),
        shape_entry_table@.len() == elements@.len(), // [C10]
        tiles(group_entry_table@, elements@.len() as int),
        shapes_of_groups(shape_entry_table@, group_entry_table@, group_entry_table@.len() as int), // [C10]
        shapes_of_smoothing(shape_entry_table@, smoothing_group_entry_table@, it.index@), // [C10]
        forall|k: int| min_element_index <= k < i ==> (#[trigger] shape_entry_table@[k]).smoothing_group == smoothing_group_index, // [C10]
@end 3
    proof { lemma_tiles_order(smoothing_group_entry_table@, elements@.len() as int); }

@fn Parser::parse_geometries
@spec
    requires old(geometries)@.len() == 0,
        forall|k: int| 0 <= k < material_name_entry_table@.len() ==> (#[trigger] material_name_entry_table@[k]).1 < material_names@.len()
            && material_name_entry_table@[k].0.0 <= material_name_entry_table@[k].0.1,
    ensures final(geometries)@.len() == material_name_entry_table@.len(), // [C11]
        forall|k: int| 0 <= k < material_name_entry_table@.len() ==> geom_v(#[trigger] final(geometries)@[k]) == geom_of(material_name_entry_table@[k], opt_strs(material_names@)), // [C11]
@iter 0 it
@loop 0
    invariant geometries@.len() == it.index@ <= material_name_entry_table@.len(), // [C11]
        forall|k: int| 0 <= k < material_name_entry_table@.len() ==> (#[trigger] material_name_entry_table@[k]).1 < material_names@.len()
            && material_name_entry_table@[k].0.0 <= material_name_entry_table@[k].0.1,
        forall|k: int| 0 <= k < it.index@ ==> geom_v(#[trigger] geometries@[k]) == geom_of(material_name_entry_table@[k], opt_strs(material_names@)), // [C11]
@end 0
    proof { let k = geometries@.len() - 1; assert(geometries@[k].shapes@ =~= geom_of(material_name_entry_table@[k], opt_strs(material_names@)).shapes); }

@fn Parser::parse_object
@attr #[verifier::spinoff_prover]
@ret r
@spec
    requires old(self).wf(),
        *old(min_vertex_index) == *old(max_vertex_index), *old(min_texture_index) == *old(max_texture_index), *old(min_normal_index) == *old(max_normal_index),
        *old(max_vertex_index) + old(self).ps().t.len() <= isize::MAX + 1,
        *old(max_texture_index) + old(self).ps().t.len() <= isize::MAX + 1,
        *old(max_normal_index) + old(self).ps().t.len() <= isize::MAX + 1,
    ensures final(self).wf(),
        r.is_ok() == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index))).is_ok(), // [C12] [C13]
        r is Ok ==> obj_v(r->Ok_0).name == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.name, // [C12]
        r is Ok ==> obj_v(r->Ok_0).vs == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.vs, // [C09]
        r is Ok ==> obj_v(r->Ok_0).ts == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.ts, // [C09]
        r is Ok ==> obj_v(r->Ok_0).ns == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.ns, // [C09]
        r is Ok ==> obj_v(r->Ok_0).elems == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.elems, // [C06] [C08]
        r is Ok ==> obj_v(r->Ok_0).groups == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.groups, // [C10]
        r is Ok ==> obj_v(r->Ok_0).smooth == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.smooth, // [C10]
        r is Ok ==> obj_v(r->Ok_0).shapes =~= s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.shapes, // [C10]
        r is Ok ==> obj_v(r->Ok_0).geoms =~= s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.0.geoms, // [C11]
        r is Ok ==> base(*final(min_vertex_index), *final(min_texture_index), *final(min_normal_index))
            == s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))->Ok_0.0.1, // [C12]
        r is Ok ==> *final(min_vertex_index) == *final(max_vertex_index) && *final(min_texture_index) == *final(max_texture_index) && *final(min_normal_index) == *final(max_normal_index), // [C12]
        left(final(self).ps(), s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))), // [C12]
        kind(r, s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))), // [C13]
        line(r, final(self).ps(), s_object(old(self).ps(), base(*old(min_vertex_index), *old(min_texture_index), *old(min_normal_index)))), // [C17]
        r is Ok ==> *final(max_vertex_index) + final(self).ps().t.len() <= isize::MAX + 1,
        r is Ok ==> *final(max_texture_index) + final(self).ps().t.len() <= isize::MAX + 1,
        r is Ok ==> *final(max_normal_index) + final(self).ps().t.len() <= isize::MAX + 1,
@entry
    hide(s_groups); hide(s_smoothing); hide(s_material); hide(s_vertex); hide(s_texture); hide(s_normal); hide(s_elements); hide(body); hide(s_object_name); hide(finish); hide(covers); hide(s_object); hide(geoms_match);
    proof { lemma_object_of(self.ps(), base(*min_vertex_index, *min_texture_index, *min_normal_index)); }
@before 0
    let ghost vp_base = base(*min_vertex_index, *min_texture_index, *min_normal_index);
    let ghost vp_start = self.ps();
    let ghost mut vp_b = empty_ob();
    proof { lemma_object_name(old(self).ps()); lemma_covers_start((0usize, 0usize)); lemma_covers_start(0usize); lemma_geoms_start(vp_b.mats); }
@loop 0
    invariant_except_break
        covers(group_entry_table@.push(((min_element_group_index, max_element_group_index), (min_group_index, max_group_index))), vp_b.eg), // [C10]
        covers(smoothing_group_entry_table@.push(((min_element_smoothing_group_index, max_element_smoothing_group_index), smoothing_group_index)), vp_b.es), // [C10]
        geoms_match(material_name_entry_table@, vp_b.mats, vp_b.geoms), // [C11]
    invariant self.wf(),
        body(self.ps(), vp_b, vp_base) == body(vp_start, empty_ob(), vp_base),
        vertices@ == vp_b.vs, texture_vertices@ == vp_b.ts, normal_vertices@ == vp_b.ns, // [C09]
        elements@ == vp_b.elems, // [C08]
        group_names(groups@) == vp_b.groups, // [C10]
        smooth_names(smoothing_groups@) == vp_b.smooth, // [C10]
        opt_strs(material_names@) == vp_b.mats, // [C11]
        min_group_index == vp_b.glo, min_group_index <= max_group_index, max_group_index == vp_b.groups.len(), // [C10]
        smoothing_group_index == last_index(vp_b.smooth.len()), // [C10]
        material_name_index == last_index(vp_b.mats.len()), // [C11]
        max_element_group_index == vp_b.elems.len(), max_element_smoothing_group_index == vp_b.elems.len(), // [C10]
        max_element_material_name_index == vp_b.elems.len(), // [C11]
        min_element_material_name_index == vp_b.mlo, // [C11]
        vp_b.mlo <= vp_b.elems.len(),
        vp_b.eg.len() == vp_b.elems.len(), vp_b.es.len() == vp_b.elems.len(),
        vp_b.elems.len() > 0 ==> vp_b.groups.len() > 0 && vp_b.smooth.len() > 0 && vp_b.mats.len() > 0,
        forall|k: int| 0 <= k < group_entry_table@.len() ==> (#[trigger] group_entry_table@[k]).1.0 <= group_entry_table@[k].1.1,
        s_object_name(old(self).ps()) == Ok::<(Str, PS), Er>((object_name@, vp_start)),
        groups@.len() == vp_b.groups.len(), smoothing_groups@.len() == vp_b.smooth.len(), material_names@.len() == vp_b.mats.len(),
        vp_base == base(*min_vertex_index, *min_texture_index, *min_normal_index), // [C06] [C12]
        *min_vertex_index == *old(min_vertex_index), *min_texture_index == *old(min_texture_index), *min_normal_index == *old(min_normal_index), // [C06] [C12]
        *max_vertex_index == *min_vertex_index + vertices@.len(), // [C06] [C12]
        *max_texture_index == *min_texture_index + texture_vertices@.len(), // [C06] [C12]
        *max_normal_index == *min_normal_index + normal_vertices@.len(), // [C06] [C12]
        vp_b.elems.len() + self.ps().t.len() <= isize::MAX + 1, vp_b.groups.len() + self.ps().t.len() <= isize::MAX + 1,
        vp_b.smooth.len() + self.ps().t.len() <= isize::MAX + 1, vp_b.mats.len() + self.ps().t.len() <= isize::MAX + 1,
        *max_vertex_index + self.ps().t.len() <= isize::MAX + 1,
        *max_texture_index + self.ps().t.len() <= isize::MAX + 1,
        *max_normal_index + self.ps().t.len() <= isize::MAX + 1,
    ensures
        object_ends(self.ps()), // [C12]
        covers(group_entry_table@, vp_b.eg), // [C10]
        covers(smoothing_group_entry_table@, vp_b.es), // [C10]
        geoms_match(material_name_entry_table@, vp_b.mats, all_geoms(vp_b)), // [C11]
    decreases self.ps().t.len(),
@begin 0
    let ghost vp_s0 = self.ps();
    let ghost vp_b0 = vp_b;
    let ghost vp_gt = group_entry_table@;
    let ghost vp_go = ((min_element_group_index, max_element_group_index), (min_group_index, max_group_index));
    let ghost vp_st = smoothing_group_entry_table@;
    let ghost vp_mt = material_name_entry_table@;
    let ghost vp_mo = ((min_element_material_name_index, max_element_material_name_index), material_name_index);
    let ghost vp_so = ((min_element_smoothing_group_index, max_element_smoothing_group_index), smoothing_group_index);
    proof {
        lemma_tags();
        lemma_object_of(old(self).ps(), vp_base);
        lemma_geoms_grow(vp_mt, vp_b.mats, vp_b.mats, vp_b.geoms, vp_mo.0.0, vp_mo.0.1, vp_mo.1);
        if !object_ends(self.ps()) { lemma_body_step(self.ps(), vp_b, vp_base); if step(self.ps(), vp_b, vp_base) is Ok { lemma_step(self.ps(), vp_b, vp_base); } }
    }
@end 0
    proof {
        lemma_body_step(vp_s0, vp_b0, vp_base);
        lemma_step(vp_s0, vp_b0, vp_base);
        vp_b = step(vp_s0, vp_b0, vp_base)->Ok_0.0;
        lemma_geoms_grow(vp_mt, vp_b0.mats, vp_b.mats, vp_b0.geoms, vp_mo.0.0, vp_mo.0.1, vp_mo.1);
        if group_entry_table@.len() > vp_gt.len() {
            lemma_covers_push(vp_gt, vp_go.0.0, vp_go.0.1, vp_go.1, (min_group_index, max_group_index), vp_b.eg);
        } else {
            lemma_covers_extend(vp_gt, vp_go.0.0, vp_go.0.1, max_element_group_index, vp_go.1, (min_group_index, max_group_index), vp_b0.eg, vp_b.eg);
        }
        if smoothing_group_entry_table@.len() > vp_st.len() {
            lemma_covers_push(vp_st, vp_so.0.0, vp_so.0.1, vp_so.1, smoothing_group_index, vp_b.es);
        } else {
            lemma_covers_extend(vp_st, vp_so.0.0, vp_so.0.1, max_element_smoothing_group_index, vp_so.1, smoothing_group_index, vp_b0.es, vp_b.es);
        }
    }
@after 0
    proof {
        lemma_covers_tiles(group_entry_table@, vp_b.eg);
        lemma_covers_tiles(smoothing_group_entry_table@, vp_b.es);
        lemma_geoms_indices(material_name_entry_table@, vp_b.mats, all_geoms(vp_b));
    }
@post
    proof {
        lemma_object_of(old(self).ps(), vp_base);
        lemma_body_end(self.ps(), vp_b, vp_base);
        lemma_finish_shapes(object_name@, vp_b, group_entry_table@, smoothing_group_entry_table@, r->Ok_0.shape_set@);
        lemma_finish_geoms(object_name@, vp_b, material_name_entry_table@, r->Ok_0.geometry_set@);
        lemma_finish(object_name@, vp_b);
    }

@fn Parser::parse_objects
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_objects(skip_nl(old(self).ps()), base(0, 0, 0), Seq::empty()).is_ok(), // [C12] [C13]
        r is Ok ==> objs_v(r->Ok_0@) == s_objects(skip_nl(old(self).ps()), base(0, 0, 0), Seq::empty())->Ok_0.0, // [C12]
        left(final(self).ps(), s_objects(skip_nl(old(self).ps()), base(0, 0, 0), Seq::empty())), // [C12]
        kind(r, s_objects(skip_nl(old(self).ps()), base(0, 0, 0), Seq::empty())), // [C13]
        line(r, final(self).ps(), s_objects(skip_nl(old(self).ps()), base(0, 0, 0), Seq::empty())), // [C17]
        r is Ok ==> sound_set(objs_v(r->Ok_0@)), // [C05] [C07] [C10] [C11]
@entry
    hide(sound_obj);
    proof { if s_objects(skip_nl(self.ps()), base(0, 0, 0), Seq::empty()) is Ok { self.lemma_wf(); lemma_skip_nl(self.ps()); lemma_objects_sound(skip_nl(self.ps()), base(0, 0, 0), Seq::empty()); } }
    proof { self.lemma_wf(); lemma_skip_nl(self.ps()); assert(objs_v(Seq::<Object>::empty()) =~= Seq::empty()); }
@loop 0
    invariant self.wf(),
        s_objects(self.ps(), base(min_vertex_index, min_texture_index, min_normal_index), objs_v(result@))
            == s_objects(skip_nl(old(self).ps()), base(0, 0, 0), Seq::empty()), // [C12]
        min_vertex_index == max_vertex_index, min_texture_index == max_texture_index, min_normal_index == max_normal_index, // [C12]
        room(max_vertex_index, self.ps()),
        room(max_texture_index, self.ps()),
        room(max_normal_index, self.ps()),
    ensures !more(self.ps()), // [C12]
    decreases self.ps().t.len(),
@begin 0
    let ghost vp_s0 = self.ps();
    let ghost vp_base0 = base(min_vertex_index, min_texture_index, min_normal_index);
@end 0
    proof {
        lemma_object(vp_s0, vp_base0);
        lemma_skip_nl(s_object(vp_s0, vp_base0)->Ok_0.1);
    }

@fn Parser::parse_material_library_line
@ret r
@spec
    requires old(self).wf(), at(old(self).ps(), "mtllib"@),
    ensures final(self).wf(),
        r is Ok,
        strs(final(material_libraries)@) == words(adv(old(self).ps()), strs(old(material_libraries)@)).0, // [C12]
        r->Ok_0 == final(material_libraries)@.len() - old(material_libraries)@.len(),
        final(self).ps().t == words(adv(old(self).ps()), strs(old(material_libraries)@)).1.t, // [C12]
        final(self).ps().n == words(adv(old(self).ps()), strs(old(material_libraries)@)).1.n, // [C17]
@entry
    proof { self.lemma_wf(); }
@loop 0
    invariant_except_break
        words(self.ps(), strs(material_libraries@)) == words(adv(old(self).ps()), strs(old(material_libraries)@)), // [C12]
    invariant self.wf(),
        number_of_libraries_found == material_libraries@.len() - old(material_libraries)@.len(),
        material_libraries@.len() - old(material_libraries)@.len() + self.ps().t.len() <= isize::MAX + 1,
    ensures
        words(adv(old(self).ps()), strs(old(material_libraries)@)) == (strs(material_libraries@), self.ps()), // [C12]
    decreases self.ps().t.len(),

@fn Parser::parse_material_libraries
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), r is Ok,
        strs(r->Ok_0@) == s_libs(skip_nl(old(self).ps()), Seq::empty()).0, // [C12]
        final(self).ps().t == s_libs(skip_nl(old(self).ps()), Seq::empty()).1.t, // [C12]
        final(self).ps().n == s_libs(skip_nl(old(self).ps()), Seq::empty()).1.n, // [C17]
@entry
    proof { assert(strs(Seq::<String>::empty()) =~= Seq::empty()); }
@loop 0
    invariant self.wf(),
        s_libs(self.ps(), strs(material_libraries@)) == s_libs(skip_nl(old(self).ps()), Seq::empty()), // [C12]
    ensures !at(self.ps(), "mtllib"@), // [C12]
    decreases self.ps().t.len(),
@begin 0
    proof { 
        lemma_words(adv(self.ps()), strs(material_libraries@));
        lemma_skip_nl(words(adv(self.ps()), strs(material_libraries@)).1);
    }

@fn Parser::parse_objset
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        r.is_ok() == s_set(old(self).ps()).is_ok(), // [C12] [C13]
        r is Ok ==> set_v(r->Ok_0) == s_set(old(self).ps())->Ok_0.0, // [C12]
        kind(r, s_set(old(self).ps())), // [C13]
        line(r, final(self).ps(), s_set(old(self).ps())), // [C17]
        r is Ok ==> sound_set(set_v(r->Ok_0).objects), // [C05] [C07] [C10] [C11]

@fn parse
@ret r
@spec
    ensures exists|s: &str| #[trigger] call_ensures(T::as_ref, (&input,), s) && {
        let want = s_set(PS { t: tokens(s@), n: 1 });
        &&& r.is_ok() == want.is_ok() // [C12] [C13]
        &&& r is Ok ==> set_v(r->Ok_0) == want->Ok_0.0 // [C12]
        &&& r is Ok ==> sound_set(set_v(r->Ok_0).objects) // [C05] [C07] [C10] [C11]
        &&& r is Ok ==> showable_ObjectSet(r->Ok_0) // [C01] [C18]
        &&& kind(r, want) // [C13]
        &&& crate::layoutobj::any_layout(r, s@) // [C20]
        &&& r is Err && want is Err ==> ev(r->Err_0).line == want->Err_0.line // [C17]
    },
@entry
    proof {
        crate::layoutobj::lemma_any_layout();
        assert forall|o: ObjectSet| sound_set(#[trigger] set_v(o).objects) implies showable_ObjectSet(o) by { lemma_showable(o); };
    }
