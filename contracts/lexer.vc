@module lexer
@items
impl<'a> Lexer<'a> {
    /// Bytes consumed so far.
    pub closed spec fn pos(&self) -> int { self.stream_position as int }
    /// The whole input.
    pub closed spec fn bytes(&self) -> Seq<u8> { self.stream@ }
    pub closed spec fn wf0(&self) -> bool {
        &&& self.stream_position <= self.stream@.len() <= isize::MAX
        &&& self.current_line_number <= self.stream_position + 1
    }
    pub closed spec fn wf(&self) -> bool { self.wf0() && at_char(self.stream@, self.stream_position as int) }
    /// The tokens still to come.
    pub closed spec fn toks(&self) -> Seq<Str> { tokens_from(self.stream@, self.stream_position as int) }
}
impl<'a> PeekableLexer<'a> {
    pub closed spec fn wf(&self) -> bool {
        self.inner.wf() && (self.cache == Some(None::<&str>) ==> self.inner.toks().len() == 0)
    }
    /// The tokens still to come, the one looked at already included.
    pub closed spec fn rest(&self) -> Seq<Str> {
        match self.cache { Some(Some(t)) => seq![t@] + self.inner.toks(), _ => self.inner.toks() }
    }
}

@fn is_whitespace
@ret r
@spec
    ensures r == is_ws(ch), // [C03]
@fn is_newline
@ret r
@spec
    ensures r == is_nl(ch), // [C03]
@fn is_whitespace_or_newline
@ret r
@spec
    ensures r == (is_ws(ch) || is_nl(ch)), // [C03]

@fn Lexer::new
@ret r
@spec
    ensures r.wf(), r.toks() == tokens(stream@),
@entry
    proof {
        broadcast use axiom_str_size;
        encode_utf8_valid_utf8(stream@);
        let b = encode_utf8(stream@);
        assert(b.subrange(0, b.len() as int) =~= b);
    }

@fn Lexer::peek
@ret r
@spec
    ensures *final(self) == *old(self),
        r == (if old(self).pos() < old(self).bytes().len() { Some(&old(self).bytes()[old(self).pos()]) } else { None }),

@fn Lexer::advance
@spec
    requires old(self).wf0(), old(self).pos() < old(self).bytes().len(),
    ensures final(self).wf0(), final(self).bytes() == old(self).bytes(), final(self).pos() == old(self).pos() + 1,

@fn Lexer::skip_while
@ret r
@spec
    requires old(self).wf0(), forall|b: u8| call_requires(predicate, (b,)),
    ensures
        final(self).wf0(), final(self).bytes() == old(self).bytes(),
        old(self).pos() <= final(self).pos(), r == final(self).pos() - old(self).pos(),
        forall|k: int| old(self).pos() <= k < final(self).pos() ==> call_ensures(predicate, (#[trigger] old(self).bytes()[k],), true),
        final(self).pos() < old(self).bytes().len() ==> call_ensures(predicate, (old(self).bytes()[final(self).pos()],), false),
@loop 0
    invariant_except_break
        self.wf0(), self.bytes() == old(self).bytes(),
        forall|b: u8| call_requires(predicate, (b,)),
        old(self).pos() <= self.pos(), skipped == self.pos() - old(self).pos(),
        forall|k: int| old(self).pos() <= k < self.pos() ==> call_ensures(predicate, (#[trigger] old(self).bytes()[k],), true),
    ensures
        self.wf0(), self.bytes() == old(self).bytes(),
        old(self).pos() <= self.pos(), skipped == self.pos() - old(self).pos(),
        forall|k: int| old(self).pos() <= k < self.pos() ==> call_ensures(predicate, (#[trigger] old(self).bytes()[k],), true),
        self.pos() < old(self).bytes().len() ==> call_ensures(predicate, (old(self).bytes()[self.pos()],), false),
    decreases self.bytes().len() - self.pos(),

@fn Lexer::skip_unless
@ret r
@spec
    requires old(self).wf0(), forall|b: u8| call_requires(not_predicate, (b,)),
    ensures
        final(self).wf0(), final(self).bytes() == old(self).bytes(),
        old(self).pos() <= final(self).pos(), r == final(self).pos() - old(self).pos(),
        forall|k: int| old(self).pos() <= k < final(self).pos() ==> call_ensures(not_predicate, (#[trigger] old(self).bytes()[k],), false),
        final(self).pos() < old(self).bytes().len() ==> call_ensures(not_predicate, (old(self).bytes()[final(self).pos()],), true),
@closure 0
    -> (b: bool) ensures call_ensures(not_predicate, (ch,), !b)

@fn Lexer::skip_comment
@ret r
@spec
    requires old(self).wf0(),
    ensures final(self).wf0(), final(self).bytes() == old(self).bytes(), r == final(self).pos() - old(self).pos(),
        final(self).pos() == comment_end(old(self).bytes(), old(self).pos()), // [C03] [C20]
@entry
    broadcast use lemma_run_end;

@fn Lexer::skip_whitespace
@ret r
@spec
    requires old(self).wf0(),
    ensures final(self).wf0(), final(self).bytes() == old(self).bytes(), r == final(self).pos() - old(self).pos(),
        final(self).pos() == ws_end(old(self).bytes(), old(self).pos()), // [C03] [C20]
@entry
    broadcast use lemma_run_end;

@fn Lexer::next_token
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).bytes() == old(self).bytes(),
        r.is_some() ==> valid_utf8(r.unwrap()@), // [C02]
        match r { // [C03] [C20]
            None => byte_tokens(old(self).bytes(), old(self).pos()).len() == 0 && byte_tokens(final(self).bytes(), final(self).pos()).len() == 0, // [C03] [C20]
            Some(t) => byte_tokens(old(self).bytes(), old(self).pos()) == seq![t@] + byte_tokens(final(self).bytes(), final(self).pos()), // [C03] [C20]
        }, // [C03] [C20]
        match r { // [C03] [C20]
            None => old(self).toks().len() == 0 && final(self).toks().len() == 0, // [C03] [C20]
            Some(t) => old(self).toks() =~= seq![to_str(t@)] + final(self).toks(), // [C03] [C20]
        }, // [C03] [C20]
@entry
    broadcast use lemma_run_end;
    proof { lemma_tok(self.bytes(), self.pos()); lemma_tok_utf8(self.bytes(), self.pos()); }
@closure 0
    -> (b: bool) ensures b == !is_word(ch)
@post
    proof {
        let s = old(self).bytes();
        let i = old(self).pos();
        let j = tok_start(s, i);
        if j < s.len() {
            assert(r.is_some());
            assert(self.pos() == tok_end(s, j));
            assert(r.unwrap()@ =~= tok_text(s, j));
            assert(byte_tokens(s, i) =~= seq![r.unwrap()@] + byte_tokens(s, self.pos()));
            assert(old(self).toks() =~= seq![to_str(r.unwrap()@)] + self.toks());
        } else {
            assert(r.is_none());
            assert(self.pos() == s.len());
            lemma_tok(s, self.pos());
        }
    }

@fn Lexer::next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        match r { // [C03]
            None => old(self).toks().len() == 0 && final(self).toks().len() == 0, // [C03]
            Some(t) => old(self).toks() =~= seq![to_str(t@)] + final(self).toks(), // [C03]
        }, // [C03]

@fn PeekableLexer::new
@ret r
@spec
    requires lexer.wf(),
    ensures r.wf(), r.rest() == lexer.toks(),

@fn PeekableLexer::next_token
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), took(old(self).rest(), r, final(self).rest()), // [C04]
@post
    proof {
        if r.is_some() {
            lemma_str_of_bytes(r.unwrap());
            assert(old(self).rest() =~= seq![r.unwrap()@] + self.rest());
            assert(old(self).rest().drop_first() =~= self.rest());
        }
    }

@fn PeekableLexer::peek
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).rest() == old(self).rest(), peeked(old(self).rest(), r), // [C04]
@post
    proof {
        if r.is_some() {
            lemma_str_of_bytes(r.unwrap());
        }
    }

@fn PeekableLexer::next
@ret r
@spec
    requires old(self).wf(),
    ensures final(self).wf(), took(old(self).rest(), r, final(self).rest()), // [C04]
