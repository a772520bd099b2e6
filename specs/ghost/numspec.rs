// Decimal texts, and the assumed contracts of reading them.
use vstd::prelude::*;

verus! {

pub open spec fn is_digit(c: char) -> bool {
    '0' <= c <= '9'
}

pub open spec fn dig(c: char) -> nat {
    (c as int - '0' as int) as nat
}

/// The number that a sequence of digits denotes.
pub open spec fn dec_val(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 {
        0
    } else {
        dec_val(s.drop_last()) * 10 + dig(s.last())
    }
}

pub open spec fn all_digits(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i])
}

/// A number may start with a plus sign.
pub open spec fn dec_body(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && s[0] == '+' {
        s.skip(1)
    } else {
        s
    }
}

/// `s` reads as a number that is at most `max`.
pub open spec fn is_dec(s: Seq<char>, max: nat) -> bool {
    dec_body(s).len() > 0 && all_digits(dec_body(s)) && dec_val(dec_body(s)) <= max
}

/// The text of a number.
pub open spec fn dec_text(n: nat) -> Seq<char>
    decreases n
{
    if n < 10 {
        seq![digit_char(n)]
    } else {
        dec_text(n / 10).push(digit_char(n % 10))
    }
}

pub open spec fn digit_char(d: nat) -> char {
    seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'][d as int]
}

pub proof fn lemma_digit_char(d: nat)
    requires d < 10
    ensures is_digit(digit_char(d)), dig(digit_char(d)) == d
{
    let t = seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'];
    assert(t.len() == 10);
    assert(t[0] == '0' && t[1] == '1' && t[2] == '2' && t[3] == '3' && t[4] == '4');
    assert(t[5] == '5' && t[6] == '6' && t[7] == '7' && t[8] == '8' && t[9] == '9');
}

/// A number reads back from its text.
pub proof fn lemma_dec_round(n: nat)
    ensures
        dec_text(n).len() > 0,
        all_digits(dec_text(n)),
        dec_val(dec_text(n)) == n,
        dec_body(dec_text(n)) == dec_text(n),
    decreases n
{
    let s = dec_text(n);
    if n < 10 {
        lemma_digit_char(n);
        assert(s.drop_last() =~= Seq::<char>::empty());
        reveal_with_fuel(dec_val, 2);
    } else {
        lemma_dec_round(n / 10);
        lemma_digit_char(n % 10);
        assert(s.drop_last() =~= dec_text(n / 10));
        assert forall|i: int| 0 <= i < s.len() implies is_digit(#[trigger] s[i]) by {
            if i < s.len() - 1 {
                assert(s[i] == dec_text(n / 10)[i]);
            }
        }
    }
    assert(is_digit(s[0]));
}

#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);

#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: std::str::FromStr;
    type Err;
    fn from_str(s: &str) -> Result<Self, Self::Err>;
}

/// `str::parse` calls `FromStr::from_str`.
pub assume_specification<F: std::str::FromStr> [str::parse::<F>] (s: &str) -> (r: Result<F, <F as std::str::FromStr>::Err>)
    ensures call_ensures(<F as std::str::FromStr>::from_str, (s,), r);

pub assume_specification [<u16 as std::str::FromStr>::from_str] (s: &str) -> (r: Result<u16, std::num::ParseIntError>)
    ensures match r {
        Ok(n) => is_dec(s@, 65535) && n == dec_val(dec_body(s@)),
        Err(_) => !is_dec(s@, 65535),
    };

pub assume_specification [<u8 as std::str::FromStr>::from_str] (s: &str) -> (r: Result<u8, std::num::ParseIntError>)
    ensures match r {
        Ok(n) => is_dec(s@, 255) && n == dec_val(dec_body(s@)),
        Err(_) => !is_dec(s@, 255),
    };

}
