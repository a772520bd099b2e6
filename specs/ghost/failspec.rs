// What an error says, apart from the text: the reason and the span.
use vstd::prelude::*;
use crate::lexspec::*;
use crate::error::{ParseError, Reason};

verus! {

pub enum SReason {
    InvalidNot(nat),
    InvalidCharacters,
    UnclosedParens,
    UnopenedParens,
    UnclosedQuotes,
    UnopenedQuotes,
    Empty,
    Unexpected(Seq<Seq<char>>),
    InvalidInteger,
    MultipleRoots,
    InvalidHasAtomic,
    UnknownBuiltin,
}

/// A fault: the reason, and the bytes of the text it is about.
pub struct Fail {
    pub reason: SReason,
    pub start: int,
    pub end: int,
}

pub open spec fn terms(s: Seq<&'static str>) -> Seq<Seq<char>> {
    Seq::new(s.len(), |i: int| s[i]@)
}

pub open spec fn reason_view(r: Reason) -> SReason {
    match r {
        Reason::InvalidNot(n) => SReason::InvalidNot(n as nat),
        Reason::InvalidCharacters => SReason::InvalidCharacters,
        Reason::UnclosedParens => SReason::UnclosedParens,
        Reason::UnopenedParens => SReason::UnopenedParens,
        Reason::UnclosedQuotes => SReason::UnclosedQuotes,
        Reason::UnopenedQuotes => SReason::UnopenedQuotes,
        Reason::Empty => SReason::Empty,
        Reason::Unexpected(l) => SReason::Unexpected(terms(l@)),
        Reason::InvalidInteger => SReason::InvalidInteger,
        Reason::MultipleRootPredicates => SReason::MultipleRoots,
        Reason::InvalidHasAtomic => SReason::InvalidHasAtomic,
        Reason::UnknownBuiltin => SReason::UnknownBuiltin,
    }
}

/// The error reports this fault.
pub open spec fn reports(pe: ParseError, f: Fail) -> bool {
    &&& reason_view(pe.reason) == f.reason
    &&& pe.span.start == f.start
    &&& pe.span.end == f.end
}

/// What may start an expression, and what may stand where no token starts.
pub open spec fn at_start() -> Seq<Seq<char>> {
    seq!["<key>"@, "all"@, "any"@, "not"@]
}

/// A short list of terms, written out.
pub broadcast proof fn b_terms(s: Seq<&'static str>)
    ensures
        #![trigger terms(s)]
        s.len() == 0 ==> terms(s) == Seq::<Seq<char>>::empty(),
        s.len() == 1 ==> terms(s) == seq![s[0]@],
        s.len() == 2 ==> terms(s) == seq![s[0]@, s[1]@],
        s.len() == 3 ==> terms(s) == seq![s[0]@, s[1]@, s[2]@],
        s.len() == 4 ==> terms(s) == seq![s[0]@, s[1]@, s[2]@, s[3]@],
        s.len() == 5 ==> terms(s) == seq![s[0]@, s[1]@, s[2]@, s[3]@, s[4]@],
        s.len() == 9 ==> terms(s) == seq![s[0]@, s[1]@, s[2]@, s[3]@, s[4]@, s[5]@, s[6]@, s[7]@, s[8]@],
{
    if s.len() == 0 { assert(terms(s) =~= Seq::<Seq<char>>::empty()); }
    if s.len() == 1 { assert(terms(s) =~= seq![s[0]@]); }
    if s.len() == 2 { assert(terms(s) =~= seq![s[0]@, s[1]@]); }
    if s.len() == 3 { assert(terms(s) =~= seq![s[0]@, s[1]@, s[2]@]); }
    if s.len() == 4 { assert(terms(s) =~= seq![s[0]@, s[1]@, s[2]@, s[3]@]); }
    if s.len() == 5 { assert(terms(s) =~= seq![s[0]@, s[1]@, s[2]@, s[3]@, s[4]@]); }
    if s.len() == 9 { assert(terms(s) =~= seq![s[0]@, s[1]@, s[2]@, s[3]@, s[4]@, s[5]@, s[6]@, s[7]@, s[8]@]); }
}

}
