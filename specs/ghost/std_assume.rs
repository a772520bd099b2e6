// Assumed contracts of the standard library (the trusted base).
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use crate::ustr::*;
use std::str::pattern::Pattern;

verus! {

#[verifier::external_trait_specification]
pub trait ExPattern: Sized {
    type ExternalTraitSpecificationFor: Pattern;
}

/// Character `c` is matched by the pattern `p`.
pub uninterp spec fn pat<P>(p: P, c: char) -> bool;
/// `p` stands for the string `s` (only for string patterns).
pub uninterp spec fn pat_str<P>(p: P) -> Seq<char>;

pub broadcast axiom fn axiom_pat_char(p: char, c: char)
    ensures #[trigger] pat::<char>(p, c) == (p == c);

pub broadcast axiom fn axiom_pat_fn<F: Fn(char) -> bool>(p: F, c: char)
    ensures
        #![trigger pat::<F>(p, c)]
        (forall|b: bool| p.ensures((c,), b) ==> b) ==> pat::<F>(p, c),
        (forall|b: bool| p.ensures((c,), b) ==> !b) ==> !pat::<F>(p, c);

pub assume_specification<P: Pattern> [str::find::<P>] (s: &str, p: P) -> (r: Option<usize>)
    ensures match r {
        None => forall|k: int| 0 <= k < s@.len() ==> !pat(p, #[trigger] s@[k]),
        Some(i) => exists|k: int| 0 <= k < s@.len() && i == blen(s@.take(k)) && pat(p, #[trigger] s@[k])
            && forall|j: int| 0 <= j < k ==> !pat(p, #[trigger] s@[j]),
    };

pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool)
    ensures r == ('a' <= *c <= 'z');
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool)
    ensures r == ('A' <= *c <= 'Z');
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool)
    ensures r == ('0' <= *c <= '9');

}
verus! {
pub assume_specification<'a, P: Pattern> [str::strip_prefix::<P>] (s: &'a str, p: P) -> (r: Option<&'a str>)
    ensures
        r is Some <==> pat_starts(p, s@),
        r matches Some(t) ==> exists|n: int| 0 <= n <= s@.len() && #[trigger] pat_len(p, s@, n) && t@ == s@.skip(n);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<'a, P: Pattern> [str::strip_suffix::<P>] (s: &'a str, p: P) -> (r: Option<&'a str>) where for<'b> P::Searcher<'b>: std::str::pattern::ReverseSearcher<'b>
    ensures
        r is Some <==> pat_ends(p, s@),
        r matches Some(t) ==> exists|n: int| 0 <= n <= s@.len() && #[trigger] pat_len(p, s@, n) && t@ == s@.take(s@.len() - n);

/// The match of `p` at an end of `s` has `n` characters.
pub uninterp spec fn pat_len<P>(p: P, s: Seq<char>, n: int) -> bool;
pub broadcast axiom fn axiom_len_char(p: char, s: Seq<char>, n: int)
    ensures #[trigger] pat_len::<char>(p, s, n) == (n == 1);
pub broadcast axiom fn axiom_len_str(p: &str, s: Seq<char>, n: int)
    ensures #[trigger] pat_len::<&str>(p, s, n) == (n == p@.len());

pub broadcast group group_pat { b_str_eq, axiom_pat_char, axiom_pat_fn, axiom_starts_char, axiom_starts_str, axiom_ends_char, axiom_ends_str, axiom_len_char, axiom_len_str, axiom_trim_l, axiom_trim_r, axiom_within_char, axiom_is_char, axiom_is_str }
pub uninterp spec fn pat_starts<P>(p: P, s: Seq<char>) -> bool;
pub uninterp spec fn pat_ends<P>(p: P, s: Seq<char>) -> bool;
pub broadcast axiom fn axiom_starts_char(p: char, s: Seq<char>)
    ensures #[trigger] pat_starts::<char>(p, s) == (s.len() > 0 && s[0] == p);
pub broadcast axiom fn axiom_ends_char(p: char, s: Seq<char>)
    ensures #[trigger] pat_ends::<char>(p, s) == (s.len() > 0 && s.last() == p);
pub broadcast axiom fn axiom_starts_str(p: &str, s: Seq<char>)
    ensures #[trigger] pat_starts::<&str>(p, s) == p@.is_prefix_of(s);
pub broadcast axiom fn axiom_ends_str(p: &str, s: Seq<char>)
    ensures #[trigger] pat_ends::<&str>(p, s) == p@.is_suffix_of(s);
pub assume_specification<P: Pattern> [str::starts_with::<P>] (s: &str, p: P) -> (r: bool)
   ensures r == pat_starts(p, s@);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P: Pattern> [str::ends_with::<P>] (s: &str, p: P) -> (r: bool) where for<'a> P::Searcher<'a>: std::str::pattern::ReverseSearcher<'a>
   ensures r == pat_ends(p, s@);
}
verus! {
/// No Rust object is larger than `isize::MAX` bytes.
pub axiom fn axiom_str_size(s: &str)
    ensures blen(s@) <= isize::MAX;

pub proof fn lemma_lits()
    ensures
        "cfg("@ == seq!['c', 'f', 'g', '('],
        "all"@ == seq!['a', 'l', 'l'],
        "any"@ == seq!['a', 'n', 'y'],
        "not"@ == seq!['n', 'o', 't'],
{
    reveal_strlit("cfg(");
    reveal_strlit("all");
    reveal_strlit("any");
    reveal_strlit("not");
    assert("cfg("@ =~= seq!['c', 'f', 'g', '(']);
    assert("all"@ =~= seq!['a', 'l', 'l']);
    assert("any"@ =~= seq!['a', 'n', 'y']);
    assert("not"@ =~= seq!['n', 'o', 't']);
}
}
verus! {
/// Two string slices with the same characters are the same value.
pub axiom fn axiom_str_ext(a: &str, b: &str)
    ensures a@ == b@ ==> a == b;

/// Matching on a string literal compares the characters.
pub broadcast proof fn b_str_eq(a: &str, b: &str)
    ensures #![trigger a@, b@] a@ == b@ ==> a == b
{
    axiom_str_ext(a, b);
}
}
verus! {
/// The text left when the matches of `p` at the start (end) are taken off.
pub uninterp spec fn trim_l<P>(p: P, s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_r<P>(p: P, s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn axiom_trim_l(p: char, s: Seq<char>)
    ensures
        #![trigger trim_l::<char>(p, s)]
        trim_l::<char>(p, s) == if s.len() > 0 && s[0] == p { trim_l::<char>(p, s.drop_first()) } else { s };
pub broadcast axiom fn axiom_trim_r(p: char, s: Seq<char>)
    ensures
        #![trigger trim_r::<char>(p, s)]
        trim_r::<char>(p, s) == if s.len() > 0 && s.last() == p { trim_r::<char>(p, s.drop_last()) } else { s };
pub assume_specification<P: std::str::pattern::Pattern> [str::trim_start_matches::<P>] (s: &str, p: P) -> (r: &str)
    ensures r@ == trim_l(p, s@);
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P: std::str::pattern::Pattern> [str::trim_end_matches::<P>] (s: &str, p: P) -> (r: &str) where for<'a> P::Searcher<'a>: std::str::pattern::ReverseSearcher<'a>
    ensures r@ == trim_r(p, s@);
pub assume_specification<P: std::str::pattern::Pattern> [str::contains::<P>] (s: &str, p: P) -> (r: bool)
    ensures r == pat_within(p, s@);
pub uninterp spec fn pat_within<P>(p: P, s: Seq<char>) -> bool;
pub broadcast axiom fn axiom_within_char(p: char, s: Seq<char>)
    ensures #[trigger] pat_within::<char>(p, s) == s.contains(p);
}
verus! {
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<P: Pattern> [str::rfind::<P>] (s: &str, p: P) -> (r: Option<usize>) where for<'a> P::Searcher<'a>: std::str::pattern::ReverseSearcher<'a>
    ensures match r {
        None => forall|k: int| 0 <= k < s@.len() ==> !pat(p, #[trigger] s@[k]),
        Some(i) => exists|k: int| 0 <= k < s@.len() && i == blen(s@.take(k)) && pat(p, #[trigger] s@[k])
            && forall|j: int| k < j < s@.len() ==> !pat(p, #[trigger] s@[j]),
    };
pub assume_specification<'a, P: Pattern> [str::split_once::<P>] (s: &'a str, p: P) -> (r: Option<(&'a str, &'a str)>)
    ensures match r {
        None => !pat_within(p, s@),
        Some((a, b)) => exists|m: Seq<char>| #[trigger] pat_is(p, m) && s@ == a@ + m + b@ && !pat_within(p, a@ + m.drop_last()),
    };
/// `m` is a text that `p` matches.
pub uninterp spec fn pat_is<P>(p: P, m: Seq<char>) -> bool;
pub broadcast axiom fn axiom_is_char(p: char, m: Seq<char>)
    ensures #[trigger] pat_is::<char>(p, m) == (m == seq![p]);
pub broadcast axiom fn axiom_is_str(p: &str, m: Seq<char>)
    ensures #[trigger] pat_is::<&str>(p, m) == (m == p@);
}

