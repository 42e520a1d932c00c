pub mod parsespec {
#[allow(unused_imports)]
use vstd::prelude::*;
use vstd::string::*;
use crate::lexspec::*;
use crate::prelude::*;
verus! {

/// Where a parser is: the tokens still to come and the line it counts.
pub struct PS { pub t: Seq<Str>, pub n: int }

pub open spec fn nl() -> Str { "\n"@ }

pub open spec fn more(s: PS) -> bool { s.t.len() > 0 }
pub open spec fn at(s: PS, tag: Str) -> bool { s.t.len() > 0 && s.t[0] == tag }

/// One token on; a line ending counts.
pub open spec fn adv(s: PS) -> PS
{
    PS { t: s.t.drop_first(), n: if s.t[0] == nl() { s.n + 1 } else { s.n } }
}

/// Past any number of line endings.
pub open spec fn skip_nl(s: PS) -> PS
    decreases s.t.len(),
{
    if at(s, nl()) { skip_nl(adv(s)) } else { s }
}

/// The words of the rest of the line, collected onto `acc`; the line ending is consumed too.
pub open spec fn words(s: PS, acc: Seq<Str>) -> (Seq<Str>, PS)
    decreases s.t.len(),
{
    if !more(s) { (acc, s) } else if at(s, nl()) { (acc, adv(s)) } else { words(adv(s), acc.push(s.t[0])) }
}

/// What an optional value reads: it is there if the next token is one.
pub open spec fn opt_f64(s: PS) -> (Option<f64>, PS) {
    if more(s) && parse_spec::<f64>(s.t[0]).is_some() { (parse_spec::<f64>(s.t[0]), adv(s)) } else { (None, s) }
}

pub proof fn lemma_skip_nl(s: PS)
    ensures skip_nl(s).t.len() <= s.t.len(), !at(skip_nl(s), nl()),
        skip_nl(s).n + skip_nl(s).t.len() == s.n + s.t.len(),
    decreases s.t.len(),
{
    if at(s, nl()) { lemma_skip_nl(adv(s)); }
}

pub proof fn lemma_words(s: PS, acc: Seq<Str>)
    ensures words(s, acc).1.t.len() <= s.t.len(),
        words(s, acc).0.len() + words(s, acc).1.t.len() <= acc.len() + s.t.len(),
        words(s, acc).0.len() >= acc.len(),
        words(s, acc).0.subrange(0, acc.len() as int) =~= acc,
    decreases s.t.len(),
{
    if more(s) && !at(s, nl()) {
        lemma_words(adv(s), acc.push(s.t[0]));
        let w = words(s, acc).0;
        assert(w.subrange(0, acc.len() as int) =~= w.subrange(0, acc.len() as int + 1).subrange(0, acc.len() as int));
    }
}

} // verus!
}
