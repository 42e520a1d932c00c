pub mod layoutspec {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use vstd::utf8::*;
use crate::lexspec::*;
use crate::parsespec::*;
use crate::prelude::*;
verus! {

// ---------------------------------------------------------------------------------------------
// Layout of a text: what may be changed in it without changing its tokens.
// ---------------------------------------------------------------------------------------------

/// What the bytes read so far leave open.
pub enum Mode { Between, Word(Seq<u8>), Comment, Return }

pub open spec fn lf() -> Seq<u8> { seq![0x0au8] }

/// The mode after one more byte.
pub open spec fn next_mode(m: Mode, b: u8) -> Mode {
    if m is Comment && !is_nl(b) { Mode::Comment }
    else if b == 0x0d { Mode::Return }
    else if b == 0x0a || is_ws(b) { Mode::Between }
    else if b == 0x23 { Mode::Comment }
    else { match m { Mode::Word(w) => Mode::Word(w.push(b)), _ => Mode::Word(seq![b]) } }
}

/// The tokens one more byte completes.
pub open spec fn emits(m: Mode, b: u8) -> Seq<Seq<u8>> {
    let word = if m is Word && !is_word(b) { seq![m->Word_0] } else { Seq::empty() };
    let line = if b == 0x0d || (b == 0x0a && !(m is Return)) { seq![lf()] } else { Seq::empty() };
    word + line
}

pub open spec fn mode_after(m: Mode, s: Seq<u8>) -> Mode
    decreases s.len(),
{ if s.len() == 0 { m } else { mode_after(next_mode(m, s[0]), s.drop_first()) } }

pub open spec fn out_of(m: Mode, s: Seq<u8>) -> Seq<Seq<u8>>
    decreases s.len(),
{ if s.len() == 0 { Seq::empty() } else { emits(m, s[0]) + out_of(next_mode(m, s[0]), s.drop_first()) } }

pub open spec fn at_end(m: Mode) -> Seq<Seq<u8>> { if m is Word { seq![m->Word_0] } else { Seq::empty() } }

/// All tokens from mode `m` on.
pub open spec fn lex(m: Mode, s: Seq<u8>) -> Seq<Seq<u8>> { out_of(m, s) + at_end(mode_after(m, s)) }

proof fn lemma_lex_step(m: Mode, s: Seq<u8>)
    requires s.len() > 0,
    ensures lex(m, s) =~= emits(m, s[0]) + lex(next_mode(m, s[0]), s.drop_first()),
{}

pub proof fn lemma_append(m: Mode, p: Seq<u8>, q: Seq<u8>)
    ensures mode_after(m, p + q) == mode_after(mode_after(m, p), q),
        out_of(m, p + q) =~= out_of(m, p) + out_of(mode_after(m, p), q),
        lex(m, p + q) =~= out_of(m, p) + lex(mode_after(m, p), q),
    decreases p.len(),
{
    if p.len() == 0 { assert(p + q =~= q); } else {
        assert((p + q).drop_first() =~= p.drop_first() + q);
        lemma_append(next_mode(m, p[0]), p.drop_first(), q);
    }
}

pub open spec fn from(s: Seq<u8>, i: int) -> Seq<u8> { s.subrange(i, s.len() as int) }

proof fn lemma_from(s: Seq<u8>, i: int)
    requires 0 <= i < s.len(),
    ensures from(s, i).drop_first() =~= from(s, i + 1), from(s, i)[0] == s[i], from(s, i).len() == s.len() - i,
{}

proof fn lemma_word_run(s: Seq<u8>, i: int, w: Seq<u8>)
    requires 0 <= i <= s.len(),
    ensures ({ let e = run_end(s, i, |b: u8| is_word(b)); i <= e <= s.len() && lex(Mode::Word(w), from(s, i)) =~= seq![w + s.subrange(i, e)] + lex(Mode::Between, from(s, e)) }),
    decreases s.len() - i,
{
    let p = |b: u8| is_word(b);
    lemma_run_end(s, i, p);
    let e = run_end(s, i, p);
    if i == s.len() {
        assert(from(s, i) =~= Seq::<u8>::empty());
        assert(w + s.subrange(i, e) =~= w);
    } else {
        lemma_from(s, i);
        lemma_lex_step(Mode::Word(w), from(s, i));
        if is_word(s[i]) {
            assert(p(s[i]));
            lemma_word_run(s, i + 1, w.push(s[i]));
            assert(w.push(s[i]) + s.subrange(i + 1, e) =~= w + s.subrange(i, e));
        } else {
            assert(w + s.subrange(i, e) =~= w);
            lemma_lex_step(Mode::Between, from(s, i));
        }
    }
}

proof fn lemma_comment_run(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures ({ let e = run_end(s, i, |b: u8| !is_nl(b)); i <= e <= s.len() && lex(Mode::Comment, from(s, i)) =~= lex(Mode::Between, from(s, e)) }),
    decreases s.len() - i,
{
    let p = |b: u8| !is_nl(b);
    lemma_run_end(s, i, p);
    if i < s.len() {
        lemma_from(s, i);
        lemma_lex_step(Mode::Comment, from(s, i));
        if !is_nl(s[i]) { assert(p(s[i])); lemma_comment_run(s, i + 1); } else { lemma_lex_step(Mode::Between, from(s, i)); }
    }
}

proof fn lemma_blank_run(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures i <= ws_end(s, i) <= s.len() && lex(Mode::Between, from(s, i)) =~= lex(Mode::Between, from(s, ws_end(s, i))),
    decreases s.len() - i,
{
    let p = |b: u8| is_ws(b);
    lemma_run_end(s, i, p);
    if i < s.len() && is_ws(s[i]) {
        assert(p(s[i]));
        lemma_from(s, i);
        lemma_lex_step(Mode::Between, from(s, i));
        lemma_blank_run(s, i + 1);
    }
}

/// The tokens are what reading byte by byte gives.
pub proof fn lemma_lex(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures lex(Mode::Between, from(s, i)) =~= byte_tokens(s, i),
    decreases s.len() - i,
{
    lemma_tok(s, i);
    lemma_blank_run(s, i);
    let j = ws_end(s, i);
    let k = tok_start(s, i);
    if j < s.len() && s[j] == 0x23 {
        lemma_from(s, j);
        lemma_lex_step(Mode::Between, from(s, j));
        let p = |b: u8| !is_nl(b);
        assert(p(s[j]));
        assert(run_end(s, j, p) == run_end(s, j + 1, p));
        lemma_comment_run(s, j + 1);
    }
    assert(lex(Mode::Between, from(s, i)) =~= lex(Mode::Between, from(s, k)));
    if k >= s.len() {
        assert(from(s, k) =~= Seq::<u8>::empty());
        assert(lex(Mode::Between, from(s, k)) =~= Seq::<Seq<u8>>::empty());
    } else {
        let e = tok_end(s, k);
        lemma_from(s, k);
        lemma_lex_step(Mode::Between, from(s, k));
        if is_nl(s[k]) {
            if s[k] == 0x0d {
                if k + 1 < s.len() { lemma_from(s, k + 1); lemma_lex_step(Mode::Return, from(s, k + 1)); lemma_lex_step(Mode::Between, from(s, k + 1)); }
                else { assert(from(s, k + 1) =~= Seq::<u8>::empty()); }
            }
            assert(lex(Mode::Between, from(s, k)) =~= seq![lf()] + lex(Mode::Between, from(s, e)));
        } else {
            let p = |b: u8| is_word(b);
            assert(p(s[k]));
            assert(run_end(s, k, p) == run_end(s, k + 1, p));
            lemma_word_run(s, k + 1, seq![s[k]]);
            assert(seq![s[k]] + s.subrange(k + 1, e) =~= s.subrange(k, e));
        }
        lemma_lex(s, e);
    }
}

pub proof fn lemma_tokens_lex(x: Str)
    ensures tokens(x) == lex(Mode::Between, encode_utf8(x)).map_values(|b: Seq<u8>| to_str(b)),
{
    let s = encode_utf8(x);
    lemma_lex(s, 0);
    assert(from(s, 0) =~= s);
}

// The changes of layout. `p` is the text before the place changed and `q` the text after it.

pub open spec fn blanks(w: Seq<u8>) -> bool { forall|i: int| 0 <= i < w.len() ==> is_ws(#[trigger] w[i]) }
/// Blanks, then possibly a comment.
pub open spec fn margin(w: Seq<u8>) -> bool {
    exists|a: Seq<u8>, c: Seq<u8>| #[trigger] blanks(a) && #[trigger] comment(c) && w == a + c
}
pub open spec fn comment(c: Seq<u8>) -> bool {
    c.len() == 0 || (c[0] == 0x23 && forall|i: int| 0 <= i < c.len() ==> !is_nl(#[trigger] c[i]))
}
pub open spec fn line_end(e: Seq<u8>) -> bool { e == seq![0x0au8] || e == seq![0x0du8] || e == seq![0x0du8, 0x0au8] }
/// The text does not end in a carriage return, which a line feed would belong to.
pub open spec fn no_return(p: Seq<u8>) -> bool { p.len() == 0 || p.last() != 0x0d }
/// The text does not start with a line feed, which a carriage return would take.
pub open spec fn no_feed(q: Seq<u8>) -> bool { q.len() == 0 || q[0] != 0x0a }

/// Some blanks for other blanks.
pub open spec fn reblanked(x: Seq<u8>, y: Seq<u8>) -> bool {
    exists|p: Seq<u8>, w1: Seq<u8>, w2: Seq<u8>, q: Seq<u8>| #[trigger] blanks(w1) && #[trigger] blanks(w2) && w1.len() > 0 && w2.len() > 0
        && x == #[trigger] (p + w1 + q) && y == #[trigger] (p + w2 + q)
}
/// Blanks and a comment before the end of a line, which may be written another way.
pub open spec fn reended(x: Seq<u8>, y: Seq<u8>) -> bool {
    exists|p: Seq<u8>, w: Seq<u8>, e1: Seq<u8>, e2: Seq<u8>, q: Seq<u8>| #[trigger] margin(w) && #[trigger] line_end(e1) && #[trigger] line_end(e2)
        && no_return(p) && no_feed(q)
        && x == #[trigger] (p + e1 + q) && y == #[trigger] (p + w + e2 + q)
}
/// Blanks and a comment at the end of the text.
pub open spec fn trailed(x: Seq<u8>, y: Seq<u8>) -> bool {
    exists|w: Seq<u8>| #[trigger] margin(w) && y == x + w
}
/// A blank line after a line.
pub open spec fn relined(x: Seq<u8>, y: Seq<u8>) -> bool {
    exists|p: Seq<u8>, e1: Seq<u8>, w: Seq<u8>, e2: Seq<u8>, q: Seq<u8>| #[trigger] margin(w) && #[trigger] line_end(e1) && #[trigger] line_end(e2)
        && no_return(p) && no_feed(q) && (w.len() > 0 || no_return(e1) || no_feed(e2))
        && x == #[trigger] (p + e1 + q) && y == #[trigger] (p + e1 + w + e2 + q)
}
/// Blanks at the start of a line, or next to other blanks.
pub open spec fn indented(x: Seq<u8>, y: Seq<u8>) -> bool {
    exists|p: Seq<u8>, w: Seq<u8>, q: Seq<u8>| #[trigger] blanks(w) && (p.len() == 0 || is_nl(p.last()) || is_ws(p.last())) && (no_return(p) || no_feed(q))
        && x == #[trigger] (p + q) && y == #[trigger] (p + w + q)
}
/// A blank line before everything else.
pub open spec fn headed(x: Seq<u8>, y: Seq<u8>) -> bool {
    exists|w: Seq<u8>, e: Seq<u8>| #[trigger] margin(w) && #[trigger] line_end(e) && no_feed(x) && y == w + e + x
}

// ---------------------------------------------------------------------------------------------
// Token sequences that differ in repeated line endings only.
// ---------------------------------------------------------------------------------------------

pub open spec fn skip(t: Seq<Str>) -> Seq<Str>
    decreases t.len(),
{ if t.len() > 0 && t[0] == nl() { skip(t.drop_first()) } else { t } }

/// Every run of line endings as one.
pub open spec fn norm(t: Seq<Str>) -> Seq<Str>
    decreases t.len(),
{
    if t.len() == 0 { t }
    else if t[0] == nl() { let r = skip(t); if r.len() < t.len() { seq![nl()] + norm(r) } else { t } }
    else { seq![t[0]] + norm(t.drop_first()) }
}

/// The same but for repeated line endings.
pub open spec fn same(a: PS, b: PS) -> bool { norm(a.t) == norm(b.t) }
/// The same but for repeated and leading line endings.
pub open spec fn akin(a: PS, b: PS) -> bool { norm(skip(a.t)) == norm(skip(b.t)) }

pub proof fn lemma_skip(t: Seq<Str>)
    ensures skip(t).len() <= t.len(), skip(t).len() > 0 ==> skip(t)[0] != nl(),
        t.len() > 0 && t[0] == nl() ==> skip(t).len() < t.len(),
        skip(skip(t)) == skip(t),
    decreases t.len(),
{ if t.len() > 0 && t[0] == nl() { lemma_skip(t.drop_first()); } }

pub proof fn lemma_skip_ps(s: PS)
    ensures skip_nl(s).t == skip(s.t),
    decreases s.t.len(),
{ if at(s, nl()) { lemma_skip_ps(adv(s)); } }

pub proof fn lemma_norm(t: Seq<Str>)
    ensures (norm(t).len() == 0) == (t.len() == 0),
        t.len() > 0 ==> norm(t)[0] == t[0],
        t.len() > 0 && t[0] != nl() ==> norm(t.drop_first()) =~= norm(t).drop_first(),
        t.len() > 0 && t[0] == nl() ==> norm(skip(t)) =~= norm(t).drop_first(),
{ lemma_skip(t); }

/// What the same token sequences have in common.
pub proof fn lemma_same(a: PS, b: PS)
    requires same(a, b),
    ensures more(a) == more(b), more(a) ==> a.t[0] == b.t[0],
        more(a) && !at(a, nl()) ==> same(adv(a), adv(b)),
        more(a) && at(a, nl()) ==> akin(adv(a), adv(b)),
        same(skip_nl(a), skip_nl(b)), akin(a, b),
{
    lemma_norm(a.t); lemma_norm(b.t);
    lemma_skip_ps(a); lemma_skip_ps(b);
    lemma_skip(a.t); lemma_skip(b.t);
}

pub proof fn lemma_akin(a: PS, b: PS)
    requires akin(a, b),
    ensures same(skip_nl(a), skip_nl(b)),
        !at(a, nl()) && !at(b, nl()) ==> same(a, b),
{ lemma_skip_ps(a); lemma_skip_ps(b); }

pub proof fn lemma_words_same(a: PS, b: PS, acc: Seq<Str>)
    requires same(a, b),
    ensures words(a, acc).0 == words(b, acc).0, akin(words(a, acc).1, words(b, acc).1),
    decreases a.t.len(),
{
    lemma_same(a, b);
    if more(a) && !at(a, nl()) { lemma_words_same(adv(a), adv(b), acc.push(a.t[0])); }
}

proof fn lemma_repeat(a: Seq<Str>, b: Seq<Str>)
    ensures norm(a + seq![nl()] + b) == norm(a + seq![nl(), nl()] + b),
        norm(skip(a + seq![nl()] + b)) == norm(skip(a + seq![nl(), nl()] + b)),
    decreases a.len(),
{
    let x = a + seq![nl()] + b;
    let y = a + seq![nl(), nl()] + b;
    lemma_skip(x); lemma_skip(y);
    if a.len() == 0 {
        assert(x.drop_first() =~= b);
        assert(y.drop_first() =~= x);
    } else {
        assert(x.drop_first() =~= a.drop_first() + seq![nl()] + b);
        assert(y.drop_first() =~= a.drop_first() + seq![nl(), nl()] + b);
        lemma_repeat(a.drop_first(), b);
        assert(x[0] == y[0]);
    }
}

// The changes of layout leave the tokens as they are, but for repeated and leading line endings.

proof fn lemma_mode(m: Mode, s: Seq<u8>)
    ensures s.len() > 0 ==> (mode_after(m, s) is Return) == (s.last() == 0x0d),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_mode(next_mode(m, s[0]), s.drop_first());
        if s.len() == 1 { assert(s.drop_first() =~= Seq::<u8>::empty()); } else { assert(s.drop_first().last() == s.last()); }
    }
}

proof fn lemma_blanks(m: Mode, w: Seq<u8>)
    requires blanks(w), w.len() > 0,
    ensures out_of(m, w) =~= at_end(m), mode_after(m, w) == (if m is Comment { Mode::Comment } else { Mode::Between }),
    decreases w.len(),
{
    assert(is_ws(w[0]));
    let r = w.drop_first();
    assert forall|i: int| 0 <= i < r.len() implies is_ws(#[trigger] r[i]) by { assert(r[i] == w[i + 1]); }
    if w.len() > 1 { lemma_blanks(next_mode(m, w[0]), r); } else { assert(r =~= Seq::<u8>::empty()); }
    assert(emits(m, w[0]) =~= at_end(m));
    assert(out_of(next_mode(m, w[0]), r) =~= Seq::<Seq<u8>>::empty());
}

proof fn lemma_in_comment(c: Seq<u8>)
    requires forall|i: int| 0 <= i < c.len() ==> !is_nl(#[trigger] c[i]),
    ensures out_of(Mode::Comment, c) =~= Seq::<Seq<u8>>::empty(), mode_after(Mode::Comment, c) is Comment,
    decreases c.len(),
{
    if c.len() > 0 {
        let r = c.drop_first();
        assert(!is_nl(c[0]));
        assert forall|i: int| 0 <= i < r.len() implies !is_nl(#[trigger] r[i]) by { assert(r[i] == c[i + 1]); }
        lemma_in_comment(r);
    }
}

proof fn lemma_comment(m: Mode, c: Seq<u8>)
    requires comment(c), c.len() > 0,
    ensures out_of(m, c) =~= at_end(m), mode_after(m, c) is Comment,
{
    let r = c.drop_first();
    assert forall|i: int| 0 <= i < r.len() implies !is_nl(#[trigger] r[i]) by { assert(r[i] == c[i + 1]); }
    lemma_in_comment(r);
}

/// Blanks and a comment end a word and do nothing else.
proof fn lemma_margin(m: Mode, w: Seq<u8>)
    requires margin(w), w.len() > 0,
    ensures out_of(m, w) =~= at_end(m), !(mode_after(m, w) is Word), !(mode_after(m, w) is Return),
{
    let (a, c) = choose|a: Seq<u8>, c: Seq<u8>| #[trigger] blanks(a) && #[trigger] comment(c) && w == a + c;
    lemma_append(m, a, c);
    if a.len() > 0 { lemma_blanks(m, a); } else { assert(a + c =~= c); }
    let n = mode_after(m, a);
    if c.len() > 0 { lemma_comment(n, c); } else { assert(a + c =~= a); }
}

proof fn lemma_after_return(q: Seq<u8>)
    requires no_feed(q),
    ensures lex(Mode::Return, q) =~= lex(Mode::Between, q),
{
    if q.len() > 0 { lemma_lex_step(Mode::Return, q); lemma_lex_step(Mode::Between, q); }
}

/// A line end, and blanks and a comment before it, is one line ending.
proof fn lemma_line_end(m: Mode, w: Seq<u8>, e: Seq<u8>, q: Seq<u8>)
    requires margin(w) || w.len() == 0, line_end(e), no_feed(q), !(m is Return) || w.len() > 0 || no_feed(e),
    ensures lex(m, w + e + q) =~= at_end(m) + seq![lf()] + lex(Mode::Between, q),
{
    assert(w + e + q =~= w + (e + q));
    lemma_append(m, w, e + q);
    if w.len() > 0 { lemma_margin(m, w); }
    let n = mode_after(m, w);
    assert(out_of(m, w) + at_end(n) =~= at_end(m));
    let r = e + q;
    lemma_lex_step(n, r);
    if e == seq![0x0au8] {
        assert(r.drop_first() =~= q);
    } else if e == seq![0x0du8] {
        assert(r.drop_first() =~= q);
        lemma_after_return(q);
    } else {
        let r2 = r.drop_first();
        assert(r2.drop_first() =~= q);
        assert(r2[0] == 0x0a);
        lemma_lex_step(Mode::Return, r2);
    }
    assert(lex(n, r) =~= at_end(n) + seq![lf()] + lex(Mode::Between, q));
}

/// Changing all line feeds of a text without carriage returns into carriage returns.
pub open spec fn with_cr(s: Seq<u8>) -> Seq<u8> { s.map_values(|b: u8| if b == 0x0a { 0x0du8 } else { b }) }
/// Putting a carriage return before every line feed.
pub open spec fn with_crlf(s: Seq<u8>) -> Seq<u8>
    decreases s.len(),
{ if s.len() == 0 { s } else { (if s[0] == 0x0a { seq![0x0du8, 0x0au8] } else { seq![s[0]] }) + with_crlf(s.drop_first()) } }
pub open spec fn no_cr(s: Seq<u8>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != 0x0d }

proof fn lemma_with_cr(m: Mode, n: Mode, s: Seq<u8>)
    requires no_cr(s), m == n || (m is Between && n is Return), !(m is Return),
    ensures lex(m, s) =~= lex(n, with_cr(s)),
    decreases s.len(),
{
    let t = with_cr(s);
    if s.len() > 0 {
        assert(t.drop_first() =~= with_cr(s.drop_first()));
        let r = s.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != 0x0d by { assert(r[i] == s[i + 1]); }
        assert(s[0] != 0x0d);
        lemma_with_cr(next_mode(m, s[0]), next_mode(n, t[0]), r);
        lemma_lex_step(m, s); lemma_lex_step(n, t);
        assert(emits(m, s[0]) =~= emits(n, t[0]));
    }
}

proof fn lemma_with_crlf(m: Mode, s: Seq<u8>)
    requires no_cr(s), !(m is Return),
    ensures lex(m, s) =~= lex(m, with_crlf(s)),
    decreases s.len(),
{
    let t = with_crlf(s);
    if s.len() > 0 {
        let r = s.drop_first();
        assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] != 0x0d by { assert(r[i] == s[i + 1]); }
        assert(s[0] != 0x0d);
        lemma_with_crlf(next_mode(m, s[0]), r);
        lemma_lex_step(m, s); lemma_lex_step(m, t);
        if s[0] == 0x0a {
            let t2 = t.drop_first();
            assert(t2 =~= lf() + with_crlf(r));
            assert(t2.drop_first() =~= with_crlf(r));
            lemma_lex_step(Mode::Return, t2);
            assert(emits(Mode::Return, t2[0]) =~= Seq::<Seq<u8>>::empty());
        } else {
            assert(t.drop_first() =~= with_crlf(r));
        }
    }
}

/// A change of layout.
pub open spec fn relayout(x: Seq<u8>, y: Seq<u8>) -> bool {
    reblanked(x, y) || reended(x, y) || trailed(x, y) || relined(x, y) || headed(x, y) || indented(x, y)
        || (no_cr(x) && y == with_cr(x)) || (no_cr(x) && y == with_crlf(x))
}

pub open spec fn ps_of(x: Str) -> PS { PS { t: tokens(x), n: 1 } }
pub open spec fn relaid(x: Str, y: Str) -> bool { akin(ps_of(x), ps_of(y)) }

pub open spec fn strs_of(t: Seq<Seq<u8>>) -> Seq<Str> { t.map_values(|b: Seq<u8>| to_str(b)) }

proof fn lemma_lf()
    ensures to_str(lf()) == nl(),
{
    lemma_newline_valid();
    reveal_strlit("\n");
    assert(nl() =~= seq!['\n']);
}

proof fn lemma_reblanked(p: Seq<u8>, w1: Seq<u8>, w2: Seq<u8>, q: Seq<u8>)
    requires blanks(w1), blanks(w2), w1.len() > 0, w2.len() > 0,
    ensures lex(Mode::Between, p + w1 + q) == lex(Mode::Between, p + w2 + q),
{
    let m = Mode::Between;
    let n = mode_after(m, p);
    lemma_append(m, p, w1); lemma_append(m, p + w1, q);
    lemma_append(m, p, w2); lemma_append(m, p + w2, q);
    lemma_blanks(n, w1); lemma_blanks(n, w2);
}

/// What a line end, with or without a margin, gives after `p`.
proof fn lemma_ended(p: Seq<u8>, w: Seq<u8>, e: Seq<u8>, q: Seq<u8>)
    requires margin(w) || w.len() == 0, line_end(e), no_return(p), no_feed(q),
    ensures lex(Mode::Between, p + w + e + q) == out_of(Mode::Between, p) + at_end(mode_after(Mode::Between, p)) + seq![lf()] + lex(Mode::Between, q),
{
    let m = Mode::Between;
    lemma_mode(m, p);
    assert(p + w + e + q =~= p + (w + e + q));
    lemma_append(m, p, w + e + q);
    lemma_line_end(mode_after(m, p), w, e, q);
    assert(lex(m, p + w + e + q) =~= out_of(m, p) + at_end(mode_after(m, p)) + seq![lf()] + lex(m, q));
}

/// What a line end gives, and what it leaves open.
proof fn lemma_one_end(n: Mode, e: Seq<u8>)
    requires line_end(e), !(n is Return),
    ensures out_of(n, e) =~= at_end(n) + seq![lf()], !(mode_after(n, e) is Word), (mode_after(n, e) is Return) == !no_return(e),
{
    let none = Seq::<u8>::empty();
    lemma_line_end(n, none, e, none);
    assert(none + e + none =~= e);
    lemma_mode(n, e);
    assert(!(mode_after(n, e) is Word)) by {
        let r = e.drop_first();
        if e.len() == 1 { assert(r =~= none); } else { assert(r =~= lf()); assert(r.drop_first() =~= none); assert(mode_after(next_mode(n, e[0]), r) == next_mode(next_mode(n, e[0]), r[0])) by { reveal_with_fuel(mode_after, 3); } }
    }
}

/// What two line ends in a row give after `p`.
proof fn lemma_ended_twice(p: Seq<u8>, e1: Seq<u8>, w: Seq<u8>, e2: Seq<u8>, q: Seq<u8>)
    requires margin(w), line_end(e1), line_end(e2), no_return(p), no_feed(q), w.len() > 0 || no_return(e1) || no_feed(e2),
    ensures lex(Mode::Between, p + e1 + w + e2 + q) == out_of(Mode::Between, p) + at_end(mode_after(Mode::Between, p)) + seq![lf(), lf()] + lex(Mode::Between, q),
{
    let m = Mode::Between;
    let n = mode_after(m, p);
    lemma_mode(m, p);
    assert(p + e1 + w + e2 + q =~= (p + e1) + (w + e2 + q));
    lemma_append(m, p + e1, w + e2 + q);
    lemma_append(m, p, e1);
    lemma_one_end(n, e1);
    let k = mode_after(m, p + e1);
    lemma_line_end(k, w, e2, q);
    assert(lex(m, p + e1 + w + e2 + q) =~= out_of(m, p) + at_end(n) + seq![lf(), lf()] + lex(m, q));
}

/// A change of layout changes the tokens in repeated and leading line endings only.
pub proof fn lemma_relayout(x: Str, y: Str)
    requires relayout(encode_utf8(x), encode_utf8(y)),
    ensures relaid(x, y), relaid(y, x),
{
    let (a, b) = (encode_utf8(x), encode_utf8(y));
    lemma_tokens_lex(x); lemma_tokens_lex(y);
    lemma_relayout_bytes(a, b);
}

proof fn lemma_relayout_bytes(a: Seq<u8>, b: Seq<u8>)
    requires relayout(a, b),
    ensures norm(skip(strs_of(lex(Mode::Between, a)))) == norm(skip(strs_of(lex(Mode::Between, b)))),
{
    hide(out_of); hide(mode_after); hide(lex);
    let m = Mode::Between;
    lemma_lf();
    if reblanked(a, b) {
        let (p, w1, w2, q) = choose|p: Seq<u8>, w1: Seq<u8>, w2: Seq<u8>, q: Seq<u8>| #[trigger] blanks(w1) && #[trigger] blanks(w2) && w1.len() > 0 && w2.len() > 0
            && a == #[trigger] (p + w1 + q) && b == #[trigger] (p + w2 + q);
        lemma_reblanked(p, w1, w2, q);
    } else if reended(a, b) {
        let (p, w, e1, e2, q) = choose|p: Seq<u8>, w: Seq<u8>, e1: Seq<u8>, e2: Seq<u8>, q: Seq<u8>| #[trigger] margin(w) && #[trigger] line_end(e1) && #[trigger] line_end(e2)
            && no_return(p) && no_feed(q) && a == #[trigger] (p + e1 + q) && b == #[trigger] (p + w + e2 + q);
        let none = Seq::<u8>::empty();
        assert(p + none =~= p);
        lemma_ended(p, none, e1, q);
        lemma_ended(p, w, e2, q);
    } else if trailed(a, b) {
        let w = choose|w: Seq<u8>| #[trigger] margin(w) && b == a + w;
        lemma_trailed(a, w);
    } else if relined(a, b) {
        let (p, e1, w, e2, q) = choose|p: Seq<u8>, e1: Seq<u8>, w: Seq<u8>, e2: Seq<u8>, q: Seq<u8>| #[trigger] margin(w) && #[trigger] line_end(e1) && #[trigger] line_end(e2)
            && no_return(p) && no_feed(q) && (w.len() > 0 || no_return(e1) || no_feed(e2))
            && a == #[trigger] (p + e1 + q) && b == #[trigger] (p + e1 + w + e2 + q);
        let none = Seq::<u8>::empty();
        assert(p + none =~= p);
        lemma_ended(p, none, e1, q);
        lemma_ended_twice(p, e1, w, e2, q);
        let u = out_of(m, p) + at_end(mode_after(m, p));
        let v = lex(m, q);
        assert(strs_of(lex(m, a)) =~= strs_of(u) + seq![nl()] + strs_of(v));
        assert(strs_of(lex(m, b)) =~= strs_of(u) + seq![nl(), nl()] + strs_of(v));
        lemma_repeat(strs_of(u), strs_of(v));
    } else if headed(a, b) {
        let (w, e) = choose|w: Seq<u8>, e: Seq<u8>| #[trigger] margin(w) && #[trigger] line_end(e) && no_feed(a) && b == w + e + a;
        lemma_line_end(m, w, e, a);
        assert(strs_of(lex(m, b)) =~= seq![nl()] + strs_of(lex(m, a)));
        assert(strs_of(lex(m, b)).drop_first() =~= strs_of(lex(m, a)));
    } else if indented(a, b) {
        let (p, w, q) = choose|p: Seq<u8>, w: Seq<u8>, q: Seq<u8>| #[trigger] blanks(w) && (p.len() == 0 || is_nl(p.last()) || is_ws(p.last())) && (no_return(p) || no_feed(q))
            && a == #[trigger] (p + q) && b == #[trigger] (p + w + q);
        lemma_indented(p, w, q);
    } else if b == with_cr(a) {
        lemma_with_cr(m, m, a);
    } else {
        lemma_with_crlf(m, a);
    }
}

proof fn lemma_no_word(m: Mode, s: Seq<u8>)
    requires s.len() > 0, is_nl(s.last()) || is_ws(s.last()),
    ensures !(mode_after(m, s) is Word),
    decreases s.len(),
{
    let r = s.drop_first();
    if s.len() == 1 { assert(r =~= Seq::<u8>::empty()); } else { assert(r.last() == s.last()); lemma_no_word(next_mode(m, s[0]), r); }
}

proof fn lemma_indented(p: Seq<u8>, w: Seq<u8>, q: Seq<u8>)
    requires blanks(w), p.len() == 0 || is_nl(p.last()) || is_ws(p.last()), no_return(p) || no_feed(q),
    ensures lex(Mode::Between, p + q) == lex(Mode::Between, p + w + q),
{
    let m = Mode::Between;
    let n = mode_after(m, p);
    lemma_append(m, p, q);
    if w.len() == 0 { assert(p + w + q =~= p + q); } else {
        if p.len() > 0 { lemma_no_word(m, p); lemma_mode(m, p); }
        lemma_append(m, p, w); lemma_append(m, p + w, q);
        lemma_blanks(n, w);
        if n is Return { lemma_after_return(q); }
        assert(lex(m, p + q) =~= lex(m, p + w + q));
    }
}

proof fn lemma_trailed(a: Seq<u8>, w: Seq<u8>)
    requires margin(w),
    ensures lex(Mode::Between, a) == lex(Mode::Between, a + w),
{
    let m = Mode::Between;
    if w.len() > 0 { lemma_append(m, a, w); lemma_margin(mode_after(m, a), w); } else { assert(a + w =~= a); }
    assert(lex(m, a) =~= lex(m, a + w));
}

} // verus!
}
