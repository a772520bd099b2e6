// The order of strings: lexicographic in their bytes.
use vstd::prelude::*;
use vstd::utf8::*;
use std::cmp::Ordering;

verus! {

pub open spec fn bytes_cmp(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() == 0 { Ordering::Equal } else { Ordering::Less }
    } else if b.len() == 0 {
        Ordering::Greater
    } else if a[0] < b[0] {
        Ordering::Less
    } else if a[0] > b[0] {
        Ordering::Greater
    } else {
        bytes_cmp(a.drop_first(), b.drop_first())
    }
}

pub open spec fn str_cmp(a: Seq<char>, b: Seq<char>) -> Ordering {
    bytes_cmp(encode_utf8(a), encode_utf8(b))
}

pub proof fn lemma_bytes_cmp(a: Seq<u8>, b: Seq<u8>)
    ensures
        bytes_cmp(a, b) == Ordering::Equal <==> a == b,
        bytes_cmp(a, b) == Ordering::Less <==> bytes_cmp(b, a) == Ordering::Greater,
    decreases a.len()
{
    if a.len() == 0 {
        if b.len() == 0 { assert(a =~= b); }
    } else if b.len() > 0 {
        lemma_bytes_cmp(a.drop_first(), b.drop_first());
        if a[0] == b[0] && a.drop_first() == b.drop_first() {
            assert(a =~= seq![a[0]] + a.drop_first());
            assert(b =~= seq![b[0]] + b.drop_first());
        }
        lemma_bytes_cmp_flip(a, b);
    }
}

pub proof fn lemma_bytes_cmp_flip(a: Seq<u8>, b: Seq<u8>)
    ensures
        bytes_cmp(a, b) == Ordering::Less <==> bytes_cmp(b, a) == Ordering::Greater,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_bytes_cmp_flip(a.drop_first(), b.drop_first());
    }
}

pub proof fn lemma_bytes_cmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires
        bytes_cmp(a, b) == Ordering::Less,
        bytes_cmp(b, c) == Ordering::Less,
    ensures bytes_cmp(a, c) == Ordering::Less,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        if a[0] == b[0] && b[0] == c[0] {
            lemma_bytes_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first());
        }
    }
}

pub proof fn lemma_str_cmp_eq(a: Seq<char>, b: Seq<char>)
    ensures str_cmp(a, b) == Ordering::Equal <==> a == b
{
    lemma_bytes_cmp(encode_utf8(a), encode_utf8(b));
    crate::ustr::lemma_decode(a);
    crate::ustr::lemma_decode(b);
}

}

verus! {
pub proof fn lemma_str_total()
    ensures vstd::relations::total_ordering(|x: Seq<char>, y: Seq<char>| str_cmp(x, y) != Ordering::Greater)
{
    let leq = |x: Seq<char>, y: Seq<char>| str_cmp(x, y) != Ordering::Greater;
    assert forall|x: Seq<char>| #[trigger] leq(x, x) by { lemma_str_cmp_eq(x, x); }
    assert forall|x: Seq<char>, y: Seq<char>| #[trigger] leq(x, y) && #[trigger] leq(y, x) implies x == y by {
        lemma_str_cmp_eq(x, y);
        lemma_bytes_cmp(encode_utf8(x), encode_utf8(y));
        lemma_bytes_cmp(encode_utf8(y), encode_utf8(x));
    }
    assert forall|x: Seq<char>, y: Seq<char>, z: Seq<char>| #[trigger] leq(x, y) && #[trigger] leq(y, z) implies leq(x, z) by {
        lemma_str_cmp_eq(x, y);
        lemma_str_cmp_eq(y, z);
        if x != y && y != z {
            lemma_bytes_cmp_trans(encode_utf8(x), encode_utf8(y), encode_utf8(z));
        }
    }
    assert forall|x: Seq<char>, y: Seq<char>| #[trigger] leq(x, y) || leq(y, x) by {
        lemma_bytes_cmp(encode_utf8(x), encode_utf8(y));
        lemma_bytes_cmp(encode_utf8(y), encode_utf8(x));
    }
    assert(vstd::relations::total_ordering(leq));
}
}

verus! {
pub broadcast axiom fn axiom_str_obeys_ord()
    ensures #[trigger] <str as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec();
/// `str` is ordered by its bytes.
pub broadcast axiom fn axiom_str_ord(a: &str, b: &str)
    ensures #[trigger] <str as vstd::std_specs::cmp::OrdSpec>::cmp_spec(a, b) == str_cmp(a@, b@);
pub broadcast axiom fn axiom_str_partial_ord(a: &str, b: &str)
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialOrdSpec>::partial_cmp_spec(a, b) == Some(str_cmp(a@, b@));
pub broadcast axiom fn axiom_str_obeys_partial_ord()
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn axiom_str_eq(a: &str, b: &str)
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_str_obeys_eq()
    ensures #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
/// The comparisons of `str`, for code that compares names.
pub broadcast group group_cow_cmp { axiom_str_obeys_ord, axiom_str_ord, axiom_str_partial_ord, axiom_str_obeys_partial_ord, axiom_str_eq, axiom_str_obeys_eq }
pub broadcast group group_strord { axiom_str_obeys_ord, axiom_str_ord }
}
