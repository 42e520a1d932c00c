pub mod lexspec {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {

pub type Str = Seq<char>;

pub open spec fn is_ws(b: u8) -> bool { b == 0x20 || b == 0x5c || b == 0x09 }
pub open spec fn is_nl(b: u8) -> bool { b == 0x0a || b == 0x0d }
pub open spec fn is_word(b: u8) -> bool { !is_ws(b) && !is_nl(b) && b != 0x23 }

/// The end of the maximal run of bytes satisfying `p` that starts at `i`.
pub open spec fn run_end(s: Seq<u8>, i: int, p: spec_fn(u8) -> bool) -> int
    decreases s.len() - i,
{
    if 0 <= i < s.len() && p(s[i]) { run_end(s, i + 1, p) } else { i }
}

pub open spec fn ws_end(s: Seq<u8>, i: int) -> int { run_end(s, i, |b: u8| is_ws(b)) }

/// Where the next token starts: past blanks, then past at most one comment.
pub open spec fn tok_start(s: Seq<u8>, i: int) -> int {
    let j = ws_end(s, i);
    comment_end(s, j)
}

pub open spec fn comment_end(s: Seq<u8>, j: int) -> int {
    if 0 <= j < s.len() && s[j] == 0x23 { run_end(s, j, |b: u8| !is_nl(b)) } else { j }
}


pub open spec fn tok_end(s: Seq<u8>, j: int) -> int {
    if is_nl(s[j]) {
        if s[j] == 0x0d && j + 1 < s.len() && s[j + 1] == 0x0a { j + 2 } else { j + 1 }
    } else {
        run_end(s, j, |b: u8| is_word(b))
    }
}

pub open spec fn tok_text(s: Seq<u8>, j: int) -> Seq<u8> {
    if is_nl(s[j]) { seq![0x0au8] } else { s.subrange(j, tok_end(s, j)) }
}

/// The tokens of `s` from byte `i` on.
pub open spec fn byte_tokens(s: Seq<u8>, i: int) -> Seq<Seq<u8>>
    decreases s.len() - i,
{
    let j = tok_start(s, i);
    if i < 0 || j >= s.len() || j < i || tok_end(s, j) <= i || tok_end(s, j) > s.len() { Seq::empty() } else {
        seq![tok_text(s, j)] + byte_tokens(s, tok_end(s, j))
    }
}

pub open spec fn to_str(b: Seq<u8>) -> Str { decode_utf8(b) }

/// The tokens of `s` from byte `i` on, as strings.
pub open spec fn tokens_from(s: Seq<u8>, i: int) -> Seq<Str> {
    byte_tokens(s, i).map_values(|b: Seq<u8>| to_str(b))
}

pub open spec fn tokens(input: Str) -> Seq<Str> { tokens_from(encode_utf8(input), 0) }

/// `r` is the first of `pre`, and `post` is what is left of it.
pub open spec fn took(pre: Seq<Str>, r: Option<&str>, post: Seq<Str>) -> bool {
    match r {
        None => pre.len() == 0 && post.len() == 0,
        Some(t) => pre.len() > 0 && t@ == pre[0] && post == pre.drop_first(),
    }
}
pub open spec fn peeked(pre: Seq<Str>, r: Option<&str>) -> bool {
    match r { None => pre.len() == 0, Some(t) => pre.len() > 0 && t@ == pre[0] }
}

pub broadcast proof fn lemma_run_end(s: Seq<u8>, i: int, p: spec_fn(u8) -> bool)
    requires 0 <= i <= s.len(),
    ensures i <= #[trigger] run_end(s, i, p) <= s.len(),
        forall|k: int| i <= k < run_end(s, i, p) ==> p(#[trigger] s[k]),
        run_end(s, i, p) < s.len() ==> !p(s[run_end(s, i, p)]),
    decreases s.len() - i,
{
    if i < s.len() && p(s[i]) { lemma_run_end(s, i + 1, p); }
}

pub proof fn lemma_run_end_ext(s: Seq<u8>, i: int, p: spec_fn(u8) -> bool, q: spec_fn(u8) -> bool)
    requires 0 <= i <= s.len(), forall|b: u8| #[trigger] p(b) == q(b),
    ensures run_end(s, i, p) == run_end(s, i, q),
    decreases s.len() - i,
{
    if i < s.len() && p(s[i]) { lemma_run_end_ext(s, i + 1, p, q); }
}

pub proof fn lemma_tok(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures
        i <= tok_start(s, i) <= s.len(),
        tok_start(s, i) < s.len() ==> tok_start(s, i) < tok_end(s, tok_start(s, i)) <= s.len(),
        tok_start(s, i) < s.len() && !is_nl(s[tok_start(s, i)]) ==> is_word(s[tok_start(s, i)]),
{
    let ws = |b: u8| is_ws(b);
    let cm = |b: u8| !is_nl(b);
    let wd = |b: u8| is_word(b);
    lemma_run_end(s, i, ws);
    let j = ws_end(s, i);
    if j < s.len() && s[j] == 0x23 { lemma_run_end(s, j, cm); }
    let k = tok_start(s, i);
    if k < s.len() && !is_nl(s[k]) {
        assert(is_word(s[k]));
        lemma_run_end(s, k, wd);
        assert(run_end(s, k, wd) != k) by { assert(wd(s[k])); lemma_run_end(s, k + 1, wd); }
    }
}


/// `i` is a position of `s` from which the rest of `s` is well-formed text.
pub open spec fn at_char(s: Seq<u8>, i: int) -> bool {
    0 <= i <= s.len() && valid_utf8(s.subrange(i, s.len() as int))
}

pub proof fn lemma_cut(s: Seq<u8>, i: int, j: int)
    requires at_char(s, i), i <= j <= s.len(), j < s.len() ==> s[j] < 0x80,
    ensures at_char(s, j), valid_utf8(s.subrange(i, j)),
{
    let t = s.subrange(i, s.len() as int);
    if j < s.len() {
        assert(t[j - i] == s[j]);
        is_char_boundary_iff_not_is_continuation_byte(t, j - i);
        let b = s[j];
        assert(!is_continuation_byte(b)) by {
            assert(b < 0x80 ==> b & 0xc0 != 0x80) by (bit_vector);
        }
    } else {
        is_char_boundary_start_end_of_seq(t);
    }
    valid_utf8_split(t, j - i);
    assert(t.subrange(0, j - i) =~= s.subrange(i, j));
    assert(t.subrange(j - i, t.len() as int) =~= s.subrange(j, s.len() as int));
}

pub proof fn lemma_ascii_step(s: Seq<u8>, i: int)
    requires at_char(s, i), i < s.len(), s[i] < 0x80,
    ensures at_char(s, i + 1),
{
    let t = s.subrange(i, s.len() as int);
    assert(t[0] == s[i]);
    assert(pop_first_scalar(t) =~= s.subrange(i + 1, s.len() as int));
}

pub proof fn lemma_ascii_run(s: Seq<u8>, i: int, p: spec_fn(u8) -> bool)
    requires at_char(s, i), forall|b: u8| #[trigger] p(b) ==> b < 0x80,
    ensures at_char(s, run_end(s, i, p)),
    decreases s.len() - i,
{
    if i < s.len() && p(s[i]) { lemma_ascii_step(s, i); lemma_ascii_run(s, i + 1, p); }
}

/// A token of a well-formed text is itself well-formed text, and so is what follows it.
pub proof fn lemma_tok_utf8(s: Seq<u8>, i: int)
    requires at_char(s, i),
    ensures at_char(s, tok_start(s, i)),
        tok_start(s, i) < s.len() ==> valid_utf8(tok_text(s, tok_start(s, i))),
        tok_start(s, i) < s.len() ==> at_char(s, tok_end(s, tok_start(s, i))),
{
    lemma_tok(s, i);
    let ws = |b: u8| is_ws(b);
    let cm = |b: u8| !is_nl(b);
    let wd = |b: u8| is_word(b);
    let h = ws_end(s, i);
    lemma_run_end(s, i, ws);
    lemma_ascii_run(s, i, ws);
    let j = tok_start(s, i);
    if h < s.len() && s[h] == 0x23 {
        lemma_run_end(s, h, cm);
        lemma_cut(s, h, j);
    }
    if j < s.len() {
        if is_nl(s[j]) {
            lemma_newline_valid();
            lemma_ascii_step(s, j);
            if tok_end(s, j) == j + 2 { lemma_ascii_step(s, j + 1); }
        } else {
            lemma_run_end(s, j, wd);
            lemma_cut(s, j, tok_end(s, j));
        }
    }
}

pub proof fn lemma_newline_valid()
    ensures valid_utf8(seq![0x0au8]), decode_utf8(seq![0x0au8]) =~= seq!['\n'],
{
    let n = seq![0x0au8];
    assert(pop_first_scalar(n) =~= Seq::<u8>::empty());
    reveal_with_fuel(decode_utf8, 3);
    reveal_with_fuel(valid_utf8, 3);
    assert(0x0au8 & 0x7f == 0x0a) by (bit_vector);
    assert(decode_first_scalar(n) == 10);
}

/// One newline byte is well-formed text.
pub broadcast proof fn lemma_nl_text(v: Seq<u8>)
    requires v.len() == 1, v[0] == 0x0a,
    ensures #[trigger] valid_utf8(v),
{
    assert(v =~= seq![0x0au8]);
    lemma_newline_valid();
}

/// What a byte-level token is as a string.
pub proof fn lemma_str_of_bytes(t: &str)
    ensures to_str(t.spec_bytes()) == t@,
{
    encode_utf8_decode_utf8(t@);
}

/// There are no more tokens than bytes.
pub proof fn lemma_token_count(s: Seq<u8>, i: int)
    requires 0 <= i <= s.len(),
    ensures tokens_from(s, i).len() <= s.len() - i,
    decreases s.len() - i,
{
    lemma_tok(s, i);
    if tok_start(s, i) < s.len() { lemma_token_count(s, tok_end(s, tok_start(s, i))); }
}

} // verus!
}
