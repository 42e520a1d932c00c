pub mod soundspec {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use crate::lexspec::*;
use crate::parsespec::*;
use crate::prelude::*;
use crate::objspec::*;
use crate::obj::*;
verus! {

// What holds of every accepted file, whatever it says.

/// An index names entries that exist.
pub open spec fn corner_ok(i: VTNIndex, v: nat, t: nat, n: nat) -> bool {
    match i {
        VTNIndex::V(a) => a < v,
        VTNIndex::VT(a, b) => a < v && b < t,
        VTNIndex::VN(a, c) => a < v && c < n,
        VTNIndex::VTN(a, b, c) => a < v && b < t && c < n,
    }
}
pub open spec fn elem_ok(e: Element, v: nat, t: nat, n: nat) -> bool {
    match e {
        Element::Point(a) => corner_ok(a, v, t, n),
        Element::Line(a, b) => corner_ok(a, v, t, n) && corner_ok(b, v, t, n),
        Element::Face(a, b, c) => corner_ok(a, v, t, n) && corner_ok(b, v, t, n) && corner_ok(c, v, t, n),
    }
}
pub open spec fn elem_form(e: Element) -> bool {
    match e {
        Element::Point(a) => a is V,
        Element::Line(a, b) => same_form(a, b),
        Element::Face(a, b, c) => same_form(a, b) && same_form(b, c),
    }
}
pub open spec fn elems_ok(es: Seq<Element>, v: nat, t: nat, n: nat) -> bool { forall|i: int| 0 <= i < es.len() ==> elem_ok(#[trigger] es[i], v, t, n) }
pub open spec fn elems_form(es: Seq<Element>) -> bool { forall|i: int| 0 <= i < es.len() ==> elem_form(#[trigger] es[i]) }

/// The shapes of the geometries, one geometry after the other.
pub open spec fn listed(g: Seq<GeomV>) -> Seq<usize>
    decreases g.len(),
{ if g.len() == 0 { Seq::empty() } else { listed(g.drop_last()) + g.last().shapes } }

pub open spec fn shape_ok(s: ShapeV, i: int, groups: nat, smooth: nat) -> bool {
    s.element == i && 0 <= s.smoothing < smooth && forall|k: int| 0 <= k < s.groups.len() ==> #[trigger] s.groups[k] < groups
}

pub open spec fn corners_valid(o: ObjV) -> bool { elems_ok(o.elems, o.vs.len(), o.ts.len(), o.ns.len()) }
pub open spec fn forms_uniform(o: ObjV) -> bool { elems_form(o.elems) }
pub open spec fn shapes_valid(o: ObjV) -> bool {
    o.shapes.len() == o.elems.len() && forall|i: int| 0 <= i < o.shapes.len() ==> shape_ok(#[trigger] o.shapes[i], i, o.groups.len(), o.smooth.len())
}
pub open spec fn geometries_partition(o: ObjV) -> bool { listed(o.geoms) == upto(0, o.shapes.len() as int) }
pub open spec fn sound_obj(o: ObjV) -> bool { corners_valid(o) && forms_uniform(o) && shapes_valid(o) && geometries_partition(o) }
pub open spec fn sound_set(s: Seq<ObjV>) -> bool { forall|k: int| 0 <= k < s.len() ==> sound_obj(#[trigger] s[k]) }

// The argument, over the specification.

proof fn lemma_resolve(r: Range, v: int)
    requires r.0 <= r.1, resolve(r, v) is Some,
    ensures resolve(r, v)->Some_0 < r.1 - r.0,
{}

pub open spec fn width(r: Range) -> nat { (r.1 - r.0) as nat }

proof fn lemma_vtn_of(tok: Str, rv: Range, rt: Range, rn: Range)
    requires rv.0 <= rv.1, rt.0 <= rt.1, rn.0 <= rn.1, vtn_of(tok, rv, rt, rn) is Ok,
    ensures corner_ok(vtn_of(tok, rv, rt, rn)->Ok_0, width(rv), width(rt), width(rn)),
{}

pub open spec fn corners_ok(v: Seq<VTNIndex>, a: nat, b: nat, c: nat) -> bool { forall|i: int| 0 <= i < v.len() ==> corner_ok(#[trigger] v[i], a, b, c) }

proof fn lemma_vtns_ok(s: PS, rv: Range, rt: Range, rn: Range, acc: Seq<VTNIndex>)
    requires rv.0 <= rv.1, rt.0 <= rt.1, rn.0 <= rn.1, s_vtns(s, rv, rt, rn, acc) is Ok, corners_ok(acc, width(rv), width(rt), width(rn)),
    ensures corners_ok(s_vtns(s, rv, rt, rn, acc)->Ok_0.0, width(rv), width(rt), width(rn)),
    decreases s.t.len(),
{
    if !more(s) || at(s, nl()) {} else { lemma_vtn_of(s.t[0], rv, rt, rn); lemma_vtns_ok(adv(s), rv, rt, rn, acc.push(vtn_of(s.t[0], rv, rt, rn)->Ok_0)); }
}

proof fn lemma_more_points_ok(s: PS, rv: Range, acc: Seq<Element>, t: nat, n: nat)
    requires rv.0 <= rv.1, s_more_points(s, rv, acc) is Ok, elems_ok(acc, width(rv), t, n), elems_form(acc),
    ensures elems_ok(s_more_points(s, rv, acc)->Ok_0.0, width(rv), t, n), elems_form(s_more_points(s, rv, acc)->Ok_0.0),
    decreases s.t.len(),
{
    if !more(s) || at(s, nl()) {} else {
        let i = resolve(rv, parse_spec::<isize>(s.t[0])->Some_0 as int)->Some_0;
        lemma_more_points_ok(adv(s), rv, acc.push(Element::Point(VTNIndex::V(i))), t, n);
    }
}

proof fn lemma_elements_ok(s: PS, rv: Range, rt: Range, rn: Range, acc: Seq<Element>)
    requires rv.0 <= rv.1, rt.0 <= rt.1, rn.0 <= rn.1, s_elements(s, rv, rt, rn, acc) is Ok, elems_ok(acc, width(rv), width(rt), width(rn)), elems_form(acc),
    ensures elems_ok(s_elements(s, rv, rt, rn, acc)->Ok_0.0, width(rv), width(rt), width(rn)), elems_form(s_elements(s, rv, rt, rn, acc)->Ok_0.0),
{
    let (a, b, c) = (width(rv), width(rt), width(rn));
    if at(s, "p"@) {
        let s1 = adv(s);
        let i = resolve(rv, s_isize(s1)->Ok_0.0 as int)->Some_0;
        lemma_more_points_ok(adv(s1), rv, acc.push(Element::Point(VTNIndex::V(i))), b, c);
    } else if at(s, "l"@) {
        let (x, s2) = s_vtn(adv(s), rv, rt, rn)->Ok_0;
        let (y, s3) = s_vtn(s2, rv, rt, rn)->Ok_0;
        lemma_vtn_of(adv(s).t[0], rv, rt, rn); lemma_vtn_of(s2.t[0], rv, rt, rn);
        let start = Seq::empty().push(x).push(y);
        lemma_vtns_ok(s3, rv, rt, rn, start); lemma_vtns(s3, rv, rt, rn, start);
        let v = s_vtns(s3, rv, rt, rn, start)->Ok_0.0;
        assert forall|i: int| 0 <= i < segments(v).len() implies elem_ok(#[trigger] segments(v)[i], a, b, c) && elem_form(segments(v)[i]) by {
            assert(same_form(v[i], v[0]) && same_form(v[i + 1], v[0]));
            assert(corner_ok(v[i], a, b, c) && corner_ok(v[i + 1], a, b, c));
        }
    } else {
        let v = s_vtns(adv(s), rv, rt, rn, Seq::empty())->Ok_0.0;
        lemma_vtns_ok(adv(s), rv, rt, rn, Seq::empty());
        assert forall|i: int| 0 <= i < fan(v).len() implies elem_ok(#[trigger] fan(v)[i], a, b, c) && elem_form(fan(v)[i]) by {
            assert(same_form(v[0], v[0]) && same_form(v[i + 1], v[0]) && same_form(v[i + 2], v[0]));
            assert(corner_ok(v[0], a, b, c) && corner_ok(v[i + 1], a, b, c) && corner_ok(v[i + 2], a, b, c));
        }
    }
}

pub open spec fn listed_ranges(g: Seq<(Option<Str>, int, int)>) -> Seq<usize>
    decreases g.len(),
{ if g.len() == 0 { Seq::empty() } else { listed_ranges(g.drop_last()) + upto(g.last().1, g.last().2) } }

pub open spec fn range_v(g: (Option<Str>, int, int)) -> GeomV { GeomV { material: g.0, shapes: upto(g.1, g.2) } }

proof fn lemma_listed(g: Seq<(Option<Str>, int, int)>)
    ensures listed(g.map_values(|x: (Option<Str>, int, int)| GeomV { material: x.0, shapes: upto(x.1, x.2) })) == listed_ranges(g),
    decreases g.len(),
{
    let m = g.map_values(|x: (Option<Str>, int, int)| GeomV { material: x.0, shapes: upto(x.1, x.2) });
    if g.len() > 0 {
        lemma_listed(g.drop_last());
        assert(m.drop_last() =~= g.drop_last().map_values(|x: (Option<Str>, int, int)| GeomV { material: x.0, shapes: upto(x.1, x.2) }));
    }
}

/// There is room for what the remaining tokens can add.
pub open spec fn fits(b: OB, s: PS, base: Base) -> bool {
    &&& base.v >= 0 && base.t >= 0 && base.n >= 0
    &&& base.v + b.vs.len() + s.t.len() <= isize::MAX + 1
    &&& base.t + b.ts.len() + s.t.len() <= isize::MAX + 1
    &&& base.n + b.ns.len() + s.t.len() <= isize::MAX + 1
    &&& b.groups.len() + s.t.len() <= isize::MAX + 1
    &&& b.smooth.len() + s.t.len() <= isize::MAX + 1
    &&& b.elems.len() + s.t.len() <= isize::MAX + 1
}

pub open spec fn assigned(b: OB) -> bool {
    &&& b.eg.len() == b.elems.len() && b.es.len() == b.elems.len()
    &&& 0 <= b.glo <= b.groups.len()
    &&& forall|i: int| 0 <= i < b.eg.len() ==> (#[trigger] b.eg[i]).0 <= b.eg[i].1 <= b.groups.len()
    &&& forall|i: int| 0 <= i < b.es.len() ==> #[trigger] b.es[i] < b.smooth.len()
}

pub open spec fn sound_ob(b: OB) -> bool {
    &&& elems_ok(b.elems, b.vs.len(), b.ts.len(), b.ns.len())
    &&& elems_form(b.elems)
    &&& assigned(b)
    &&& b.elems.len() > 0 ==> b.mats.len() > 0
    &&& 0 <= b.mlo <= b.elems.len()
    &&& listed_ranges(b.geoms) == upto(0, b.mlo)
}

proof fn lemma_elems_grow(es: Seq<Element>, v: nat, t: nat, n: nat, v2: nat, t2: nat, n2: nat)
    requires elems_ok(es, v, t, n), v <= v2, t <= t2, n <= n2,
    ensures elems_ok(es, v2, t2, n2),
{
    assert forall|i: int| 0 <= i < es.len() implies elem_ok(#[trigger] es[i], v2, t2, n2) by { assert(elem_ok(es[i], v, t, n)); }
}

proof fn lemma_close(b: OB)
    requires 0 <= b.mlo <= b.elems.len(), listed_ranges(b.geoms) == upto(0, b.mlo),
    ensures listed_ranges(close_geometry(b)) == upto(0, b.elems.len() as int),
{
    let g = close_geometry(b);
    assert(g.drop_last() =~= b.geoms);
    assert(listed_ranges(g) =~= upto(0, b.elems.len() as int));
}

proof fn lemma_step_sound(s: PS, b: OB, base: Base)
    requires step(s, b, base) is Ok, sound_ob(b), fits(b, s, base), !object_ends(s),
    ensures sound_ob(step(s, b, base)->Ok_0.0), fits(step(s, b, base)->Ok_0.0, step(s, b, base)->Ok_0.1, base),
{
    hide(s_vertex); hide(s_texture); hide(s_normal); hide(s_groups); hide(s_smoothing); hide(s_material); hide(s_elements); hide(sound_ob);
    lemma_step(s, b, base);
    let (b2, s2) = step(s, b, base)->Ok_0;
    if at(s, "g"@) { lemma_step_groups(s, b, base); }
    else if at(s, "s"@) { reveal(sound_ob); }
    else if at(s, "usemtl"@) {
        reveal(sound_ob);
        lemma_close(b);
    }
    else if at(s, "v"@) { reveal(sound_ob); lemma_elems_grow(b.elems, b.vs.len(), b.ts.len(), b.ns.len(), b2.vs.len(), b.ts.len(), b.ns.len()); }
    else if at(s, "vt"@) { reveal(sound_ob); lemma_elems_grow(b.elems, b.vs.len(), b.ts.len(), b.ns.len(), b.vs.len(), b2.ts.len(), b.ns.len()); }
    else if at(s, "vn"@) { reveal(sound_ob); lemma_elems_grow(b.elems, b.vs.len(), b.ts.len(), b.ns.len(), b.vs.len(), b.ts.len(), b2.ns.len()); }
    else if at_element(s) { lemma_step_elements(s, b, base); }
    else if at(s, nl()) { lemma_skip_nl(adv(s)); }
}

proof fn lemma_step_groups(s: PS, b: OB, base: Base)
    requires step(s, b, base) is Ok, sound_ob(b), fits(b, s, base), at(s, "g"@),
    ensures sound_ob(step(s, b, base)->Ok_0.0),
{
    lemma_words(adv(s), b.groups);
}

proof fn lemma_step_elements(s: PS, b: OB, base: Base)
    requires step(s, b, base) is Ok, sound_ob(b), fits(b, s, base), at_element(s),
    ensures sound_ob(step(s, b, base)->Ok_0.0),
{
    hide(s_elements);
    lemma_tags();
    let d = with_defaults(b);
    let es = s_elements(s, rv(b, base), rt(b, base), rn(b, base), b.elems)->Ok_0.0;
    lemma_elements(s, rv(b, base), rt(b, base), rn(b, base), b.elems);
    assert(width(rv(b, base)) == b.vs.len() && width(rt(b, base)) == b.ts.len() && width(rn(b, base)) == b.ns.len());
    lemma_elements_ok(s, rv(b, base), rt(b, base), rn(b, base), b.elems);
    let b2 = step(s, b, base)->Ok_0.0;
    assert(b2 == add_elements(d, es));
}

proof fn lemma_body_sound(s: PS, b: OB, base: Base)
    requires body(s, b, base) is Ok, sound_ob(b), fits(b, s, base),
    ensures sound_ob(body(s, b, base)->Ok_0.0), fits(body(s, b, base)->Ok_0.0, body(s, b, base)->Ok_0.1, base),
    decreases s.t.len(),
{
    hide(step); hide(sound_ob); hide(fits);
    if object_ends(s) { lemma_body_end(s, b, base); } else {
        lemma_body_step(s, b, base);
        lemma_step(s, b, base);
        lemma_step_sound(s, b, base);
        let (b2, s2) = step(s, b, base)->Ok_0;
        lemma_body_sound(s2, b2, base);
    }
}

proof fn lemma_finish_sound(name: Str, b: OB)
    requires sound_ob(b), b.elems.len() <= usize::MAX, b.groups.len() <= usize::MAX,
    ensures sound_obj(finish(name, b)),
{
    let o = finish(name, b);
    lemma_listed(all_geoms(b));
    if b.mats.len() > 0 { lemma_close(b); }
    assert forall|i: int| 0 <= i < o.shapes.len() implies shape_ok(#[trigger] o.shapes[i], i, o.groups.len(), o.smooth.len()) by {
        assert(b.eg[i].0 <= b.eg[i].1 <= b.groups.len());
        assert(b.es[i] < b.smooth.len());
    }
}

proof fn lemma_object_sound(s: PS, base: Base)
    requires s_object(s, base) is Ok, base.v >= 0, base.t >= 0, base.n >= 0,
        base.v + s.t.len() <= isize::MAX + 1, base.t + s.t.len() <= isize::MAX + 1, base.n + s.t.len() <= isize::MAX + 1,
    ensures ({
        let ((o, b2), s2) = s_object(s, base)->Ok_0;
        &&& sound_obj(o)
        &&& b2.v >= 0 && b2.t >= 0 && b2.n >= 0
        &&& b2.v + s2.t.len() <= isize::MAX + 1 && b2.t + s2.t.len() <= isize::MAX + 1 && b2.n + s2.t.len() <= isize::MAX + 1
    }),
{
    hide(sound_obj); hide(finish); hide(body); hide(s_object_name);
    lemma_object_of(s, base);
    lemma_object_name(s);
    let (name, s1) = s_object_name(s)->Ok_0;
    assert(listed_ranges(empty_ob().geoms) =~= upto(0, 0));
    lemma_body_sound(s1, empty_ob(), base);
    let (b, s2) = body(s1, empty_ob(), base)->Ok_0;
    lemma_finish_sound(name, b);
}

/// Every object of every accepted file is sound.
pub proof fn lemma_objects_sound(s: PS, base: Base, acc: Seq<ObjV>)
    requires s_objects(s, base, acc) is Ok, base.v >= 0, base.t >= 0, base.n >= 0, sound_set(acc),
        base.v + s.t.len() <= isize::MAX + 1, base.t + s.t.len() <= isize::MAX + 1, base.n + s.t.len() <= isize::MAX + 1,
    ensures sound_set(s_objects(s, base, acc)->Ok_0.0),
    decreases s.t.len(),
{
    hide(sound_obj); hide(s_object);
    if more(s) {
        lemma_object(s, base);
        lemma_object_sound(s, base);
        let ((o, b2), s2) = s_object(s, base)->Ok_0;
        lemma_skip_nl(s2);
        lemma_objects_sound(skip_nl(s2), b2, acc.push(o));
    }
}

} // verus!
}
