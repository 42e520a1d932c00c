pub mod prelude {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
verus! {

// ---------------------------------------------------------------------------------------------
// Assumptions about the standard library and the platform. Everything in this block is trusted;
// nothing else in the verified text is.
// ---------------------------------------------------------------------------------------------

/// The same where a value is wanted.
#[verifier::external_body]
pub fn vp_panic_at<T>() -> (r: T)
    requires false,
    opens_invariants none
    no_unwind
{
    panic!()
}

/// A call that must never be reached: what assertions and panics are turned into.
#[verifier::external_body]
pub fn vp_panic()
    requires false,
    opens_invariants none
    no_unwind
{
    panic!()
}

/// No allocation is larger than `isize::MAX` bytes, so no `&str` is.
pub broadcast axiom fn axiom_str_size(s: &str)
    ensures (#[trigger] s.spec_bytes()).len() <= isize::MAX;

/// Two string slices with the same characters are the same value: a slice is a function of its characters.
pub uninterp spec fn str_of<'a>(s: Seq<char>) -> &'a str;
pub broadcast axiom fn axiom_str_ext(a: &str)
    ensures str_of(#[trigger] a@) == a;

/// The only empty text is the empty literal.
pub broadcast proof fn lemma_empty_str(s: &str)
    ensures (#[trigger] s@).len() == 0 ==> s == "",
{
    reveal_strlit("");
    axiom_str_ext(s); axiom_str_ext("");
    if s@.len() == 0 { assert(s@ =~= ""@); }
}

/// Stands for `Option::replace`.
pub trait VpReplace<T>: Sized {
    spec fn holding(v: T) -> Self;
    fn vp_replace(&mut self, v: T) -> (r: Self)
        ensures *final(self) == Self::holding(v), r == *old(self);
}
impl<T> VpReplace<T> for Option<T> {
    open spec fn holding(v: T) -> Option<T> { Some(v) }
    fn vp_replace(&mut self, v: T) -> (r: Option<T>) { let r = self.take(); *self = Some(v); r }
}

pub assume_specification [core::str::from_utf8_unchecked] (v: &[u8]) -> (r: &str)
    requires valid_utf8(v@),
    ensures r.spec_bytes() == v@;

pub assume_specification<'b> [<String as core::convert::From<&str>>::from] (s: &str) -> (r: String)
    ensures r@ == s@;

/// Stands for the two functions called `transpose`.
pub trait VpTranspose: Sized {
    type Out;
    spec fn transposed(self) -> Self::Out;
    fn vp_transpose(self) -> (r: Self::Out)
        ensures r == self.transposed();
}
impl<T, E> VpTranspose for Option<Result<T, E>> {
    type Out = Result<Option<T>, E>;
    open spec fn transposed(self) -> Result<Option<T>, E> { match self { Some(Ok(x)) => Ok::<Option<T>, E>(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
    fn vp_transpose(self) -> (r: Result<Option<T>, E>) { match self { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
}
impl<T, E> VpTranspose for Result<Option<T>, E> {
    type Out = Option<Result<T, E>>;
    open spec fn transposed(self) -> Option<Result<T, E>> { match self { Ok(Some(x)) => Some(Ok::<T, E>(x)), Err(e) => Some(Err(e)), Ok(None) => None } }
    fn vp_transpose(self) -> (r: Option<Result<T, E>>) { match self { Ok(Some(x)) => Some(Ok(x)), Err(e) => Some(Err(e)), Ok(None) => None } }
}

// Number syntax is the standard library's: `parse_spec` is what `str::parse` accepts and returns.
pub uninterp spec fn parse_spec<F>(s: Seq<char>) -> Option<F>;

/// A line ending is not a number.
pub axiom fn axiom_no_newline_number()
    ensures parse_spec::<f64>("\n"@) is None, parse_spec::<isize>("\n"@) is None, parse_spec::<usize>("\n"@) is None;

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: core::str::FromStr;
    type Err;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseFloatError(core::num::ParseFloatError);

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(core::num::ParseIntError);

/// `AsRef::as_ref` is whatever the caller's type makes of it; the contracts name its result.
#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: core::convert::AsRef<T>;
    fn as_ref(&self) -> &T;
}

pub assume_specification<F: core::str::FromStr> [str::parse::<F>] (s: &str) -> (r: Result<F, F::Err>)
    ensures match parse_spec::<F>(s@) { Some(v) => r == Ok::<F, F::Err>(v), None => r is Err };

/// The pieces of `s` between the occurrences of `c`.
pub open spec fn split_on(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len(),
{
    if !s.contains(c) { seq![s] } else {
        let k = s.index_of_first(c).unwrap();
        if 0 <= k < s.len() { seq![s.subrange(0, k)] + split_on(s.subrange(k + 1, s.len() as int), c) } else { seq![s] }
    }
}

/// Stands for `core::str::Split<'_, char>`.
#[verifier::external_body]
pub struct VpSplit<'a> { inner: core::str::Split<'a, char> }

impl<'a> VpSplit<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;

    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r {
            None => old(self).rest().len() == 0 && final(self).rest().len() == 0,
            Some(t) => old(self).rest().len() > 0 && t@ == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
        },
    { self.inner.next() }
}

/// Stands for `str::split` with a character.
#[verifier::external_body]
pub fn vp_split<'a>(s: &'a str, c: char) -> (r: VpSplit<'a>)
    ensures r.rest() == split_on(s@, c),
{ VpSplit { inner: s.split(c) } }

/// Stands for collecting `str::split` into a vector.
pub fn vp_split_all<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == split_on(s@, c).len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == split_on(s@, c)[k],
{
    let mut it = vp_split(s, c);
    let mut v: Vec<&'a str> = Vec::new();
    loop
        invariant
            v@.len() + it.rest().len() == split_on(s@, c).len(),
            it.rest() =~= split_on(s@, c).subrange(v@.len() as int, split_on(s@, c).len() as int),
            forall|k: int| 0 <= k < v@.len() ==> (#[trigger] v@[k])@ == split_on(s@, c)[k],
        decreases it.rest().len(),
    {
        match it.next() {
            None => { return v; }
            Some(t) => { v.push(t); }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Text output. `VpFormatter` stands for `core::fmt::Formatter` with no formatting options, `VpDisplay` for `core::fmt::Display`:
// its text is what the value adds to the output. A formatter is `sure` if its sink never fails (as a String does not).
// ---------------------------------------------------------------------------------------------

#[verifier::external_body]
pub struct VpFmtError { e: core::fmt::Error }

#[verifier::external_body]
pub struct VpFormatter { s: String }

impl View for VpFormatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }

impl VpFormatter {
    pub uninterp spec fn sure(&self) -> bool;
}

#[verifier::external_body]
pub fn vp_formatter() -> (r: VpFormatter)
    ensures r.sure(), r@ == Seq::<char>::empty(),
{ VpFormatter { s: String::new() } }

#[verifier::external_body]
pub fn vp_finish(f: VpFormatter) -> (r: String)
    ensures r@ == f@,
{ f.s }

/// Stands for `Formatter::write_str`.
#[verifier::external_body]
pub fn vp_write(f: &mut VpFormatter, s: &str) -> (r: Result<(), VpFmtError>)
    ensures old(f).sure() ==> r is Ok && final(f).sure(), r is Ok ==> final(f)@ =~= old(f)@ + s@,
{ f.s.push_str(s); Ok(()) }

pub trait VpDisplay {
    spec fn text(&self) -> Seq<char>;
    spec fn showable(&self) -> bool;
    fn fmt(&self, f: &mut VpFormatter) -> (r: Result<(), VpFmtError>)
        requires self.showable(), // [C18] [C01]
        ensures
            old(f).sure() ==> r is Ok && final(f).sure(), // [C18] [C01]
            r is Ok ==> final(f)@ =~= old(f)@ + self.text(); // [C18]
}

/// Stands for `Display::fmt`.
pub fn vp_show<T: VpDisplay + ?Sized>(x: &T, f: &mut VpFormatter) -> (r: Result<(), VpFmtError>)
    requires x.showable(), // [C18] [C01]
    ensures
        old(f).sure() ==> r is Ok && final(f).sure(),
        r is Ok ==> final(f)@ =~= old(f)@ + x.text(),
{ x.fmt(f) }

/// The text the standard library gives a number.
pub uninterp spec fn shown<T>(x: T) -> Seq<char>;

/// One word: visible characters, none of which starts a comment or separates words.
pub open spec fn plain_char(c: char) -> bool { 0x20 < c as u32 && (c as u32) < 0x7f && c != '#' && c != '\\' }
pub open spec fn plain(w: Seq<char>) -> bool { w.len() > 0 && forall|i: int| 0 <= i < w.len() ==> plain_char(#[trigger] w[i]) }
pub uninterp spec fn nan(x: f64) -> bool;

/// A displayed number is one word and reads back as the same number (the standard library guarantees it but for NaN).
pub axiom fn axiom_shown_f64(x: f64)
    ensures plain(shown(x)), !nan(x) ==> parse_spec::<f64>(shown(x)) == Some(x);
pub axiom fn axiom_shown_usize(k: usize)
    ensures plain(shown(k)), !shown(k).contains('/'), parse_spec::<usize>(shown(k)) == Some(k),
        k <= isize::MAX ==> parse_spec::<isize>(shown(k)) == Some(k as isize);

impl VpDisplay for f64 {
    open spec fn text(&self) -> Seq<char> { shown(*self) }
    open spec fn showable(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VpFormatter) -> (r: Result<(), VpFmtError>) { f.s.push_str(&self.to_string()); Ok(()) }
}

impl VpDisplay for usize {
    open spec fn text(&self) -> Seq<char> { shown(*self) }
    open spec fn showable(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VpFormatter) -> (r: Result<(), VpFmtError>) { f.s.push_str(&self.to_string()); Ok(()) }
}

impl VpDisplay for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    open spec fn showable(&self) -> bool { true }
    fn fmt(&self, f: &mut VpFormatter) -> (r: Result<(), VpFmtError>) { vp_write(f, self) }
}

impl VpDisplay for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    open spec fn showable(&self) -> bool { true }
    fn fmt(&self, f: &mut VpFormatter) -> (r: Result<(), VpFmtError>) { vp_write(f, self.as_str()) }
}

impl<T: VpDisplay + ?Sized> VpDisplay for &T {
    open spec fn text(&self) -> Seq<char> { (*self).text() }
    open spec fn showable(&self) -> bool { (*self).showable() }
    fn fmt(&self, f: &mut VpFormatter) -> (r: Result<(), VpFmtError>) { (*self).fmt(f) }
}

/// Stands for `ToString::to_string`.
pub fn vp_to_string<T: VpDisplay + ?Sized>(x: &T) -> (r: String)
    requires x.showable(), // [C18] [C01]
    ensures r@ =~= x.text(),
{
    let mut f = vp_formatter();
    match x.fmt(&mut f) { Ok(_) => {} Err(_) => { vp_panic(); } }
    vp_finish(f)
}

/// What may be added to a String.
pub trait VpStr {
    spec fn chars(&self) -> Seq<char>;
    fn push_to(&self, s: &mut String)
        ensures final(s)@ =~= old(s)@ + self.chars();
}
impl VpStr for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn push_to(&self, s: &mut String) { s.push_str(self) }
}
impl VpStr for String {
    open spec fn chars(&self) -> Seq<char> { self@ }
    fn push_to(&self, s: &mut String) { self.as_str().push_to(s) }
}
impl<T: VpStr + ?Sized> VpStr for &T {
    open spec fn chars(&self) -> Seq<char> { (*self).chars() }
    fn push_to(&self, s: &mut String) { (*self).push_to(s) }
}

/// Stands for `String += &str` and `String::push_str`.
pub fn vp_push<T: VpStr + ?Sized>(s: &mut String, t: &T)
    ensures final(s)@ =~= old(s)@ + t.chars(),
{ t.push_to(s) }

/// Stands for `String + &str`.
pub fn vp_concat<T: VpStr + ?Sized>(s: String, t: &T) -> (r: String)
    ensures r@ =~= s@ + t.chars(),
{ let mut s = s; t.push_to(&mut s); s }

} // verus!
}
