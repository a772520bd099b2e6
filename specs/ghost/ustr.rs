// Strings as sequences of characters, with byte positions.
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;

verus! {

/// Byte length of a character sequence.
pub open spec fn blen(s: Seq<char>) -> nat {
    encode_utf8(s).len()
}

pub open spec fn is_ws(c: char) -> bool {
    vstd::std_specs::char::is_white_space(c)
}

pub proof fn lemma_blen_concat(a: Seq<char>, b: Seq<char>)
    ensures
        blen(a + b) == blen(a) + blen(b),
        encode_utf8(a + b) == encode_utf8(a) + encode_utf8(b),
{
    encode_utf8_concat(a, b);
}

pub proof fn lemma_blen_empty()
    ensures blen(Seq::<char>::empty()) == 0
{
    reveal_with_fuel(encode_utf8, 2);
}

pub proof fn lemma_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b)
    ensures a == b
{
    encode_utf8_decode_utf8(a);
    encode_utf8_decode_utf8(b);
}

pub proof fn lemma_boundary(a: Seq<char>, b: Seq<char>)
    ensures is_char_boundary(encode_utf8(a + b), blen(a) as int)
    decreases a.len()
{
    encode_utf8_valid_utf8(a + b);
    if a.len() == 0 {
        lemma_blen_empty();
        assert(a =~= Seq::<char>::empty());
    } else {
        let a1 = a.drop_first();
        lemma_boundary(a1, b);
        assert((a + b).drop_first() =~= a1 + b);
        lemma_blen_concat(a, b);
        encode_utf8_first_scalar(a + b);
        encode_utf8_first_scalar(a);
        lemma_blen_concat(seq![a[0]], a1);
        assert(a =~= seq![a[0]] + a1);
        assert(a + b =~= seq![a[0]] + (a1 + b));
        lemma_blen_concat(seq![a[0]], a1 + b);
        assert(pop_first_scalar(encode_utf8(a + b)) =~= encode_utf8(a1 + b));
    }
}
}
verus! {

pub proof fn lemma_blen_char(c: char)
    ensures
        blen(seq![c]) >= 1,
        is_ascii_char(c) ==> blen(seq![c]) == 1,
        blen(seq![c]) == encode_scalar(c as u32).len(),
        blen(seq![c]) <= 4,
{
    reveal_with_fuel(encode_utf8, 3);
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    lemma_blen_empty();
    encode_utf8_first_scalar(seq![c]);
}

/// The characters encoded in one byte.
pub open spec fn is_ascii_char(c: char) -> bool {
    (c as u32) < 0x80
}

pub proof fn lemma_blen_ge_len(s: Seq<char>)
    ensures
        blen(s) >= s.len(),
        (forall|i: int| 0 <= i < s.len() ==> is_ascii_char(#[trigger] s[i])) ==> blen(s) == s.len(),
    decreases s.len()
{
    if s.len() == 0 {
        assert(s =~= Seq::<char>::empty());
        lemma_blen_empty();
    } else {
        let t = s.drop_last();
        let c = s.last();
        assert(s =~= t + seq![c]);
        lemma_blen_concat(t, seq![c]);
        lemma_blen_char(c);
        lemma_blen_ge_len(t);
        assert((forall|i: int| 0 <= i < s.len() ==> is_ascii_char(#[trigger] s[i])) ==> (forall|i: int|
            0 <= i < t.len() ==> is_ascii_char(#[trigger] t[i]))) by {
            if forall|i: int| 0 <= i < s.len() ==> is_ascii_char(#[trigger] s[i]) {
                assert forall|i: int| 0 <= i < t.len() implies is_ascii_char(#[trigger] t[i]) by {
                    assert(t[i] == s[i]);
                }
            }
        }
    }
}

/// Byte offset `i` of `s` lies just before character `k`.
pub open spec fn cut(s: Seq<char>, i: int, k: int) -> bool {
    0 <= k <= s.len() && i == blen(s.take(k))
}

pub proof fn lemma_cut_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures
        blen(s) == blen(s.take(k)) + blen(s.skip(k)),
        encode_utf8(s) == encode_utf8(s.take(k)) + encode_utf8(s.skip(k)),
        is_char_boundary(encode_utf8(s), blen(s.take(k)) as int),
        encode_utf8(s).subrange(blen(s.take(k)) as int, blen(s) as int) == encode_utf8(s.skip(k)),
        encode_utf8(s).subrange(0, blen(s.take(k)) as int) == encode_utf8(s.take(k)),
{
    assert(s =~= s.take(k) + s.skip(k));
    lemma_blen_concat(s.take(k), s.skip(k));
    lemma_boundary(s.take(k), s.skip(k));
    assert(encode_utf8(s).subrange(blen(s.take(k)) as int, blen(s) as int) =~= encode_utf8(s.skip(k)));
    assert(encode_utf8(s).subrange(0, blen(s.take(k)) as int) =~= encode_utf8(s.take(k)));
}

pub proof fn lemma_cut_mono(s: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= s.len()
    ensures
        blen(s.take(k)) == blen(s.take(j)) + blen(s.subrange(j, k)),
        blen(s.take(k)) - blen(s.take(j)) >= k - j,
{
    assert(s.take(k) =~= s.take(j) + s.subrange(j, k));
    lemma_blen_concat(s.take(j), s.subrange(j, k));
    lemma_blen_ge_len(s.subrange(j, k));
}

pub proof fn lemma_slice(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures
        encode_utf8(s).subrange(blen(s.take(a)) as int, blen(s.take(b)) as int) == encode_utf8(s.subrange(a, b)),
        is_char_boundary(encode_utf8(s), blen(s.take(a)) as int),
        is_char_boundary(encode_utf8(s), blen(s.take(b)) as int),
        blen(s.take(a)) <= blen(s.take(b)) <= blen(s),
        s.take(b).skip(a) == s.subrange(a, b),
{
    lemma_cut_split(s, a);
    lemma_cut_split(s, b);
    lemma_cut_mono(s, a, b);
    let t = s.take(b);
    assert(t.take(a) =~= s.take(a));
    assert(t.skip(a) =~= s.subrange(a, b));
    lemma_cut_split(t, a);
    assert(encode_utf8(s).subrange(blen(s.take(a)) as int, blen(s.take(b)) as int)
        =~= encode_utf8(t).subrange(blen(s.take(a)) as int, blen(t) as int));
}

/// The text between two byte offsets.
pub open spec fn text_sub(s: Seq<char>, a: int, b: int) -> Seq<char> {
    decode_utf8(encode_utf8(s).subrange(a, b))
}

/// The byte range is inside of the text and does not split a character:
/// slicing with it cannot panic.
pub open spec fn span_ok(s: Seq<char>, a: int, b: int) -> bool {
    0 <= a <= b <= blen(s) && is_char_boundary(encode_utf8(s), a) && is_char_boundary(encode_utf8(s), b)
}

pub proof fn lemma_sub(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures
        span_ok(s, blen(s.take(a)) as int, blen(s.take(b)) as int),
        text_sub(s, blen(s.take(a)) as int, blen(s.take(b)) as int) == s.subrange(a, b),
{
    lemma_slice(s, a, b);
    encode_utf8_decode_utf8(s.subrange(a, b));
}

/// A slice is determined by its bytes.
pub broadcast proof fn lemma_decode(c: Seq<char>)
    ensures decode_utf8(#[trigger] encode_utf8(c)) == c
{
    encode_utf8_decode_utf8(c);
}

}
verus! {
pub assume_specification<I: std::slice::SliceIndex<str>> [<str as std::ops::Index<I>>::index] (s: &str, i: I) -> (r: &<I as std::slice::SliceIndex<str>>::Output)
    ensures call_ensures(<I as std::slice::SliceIndex<str>>::index, (i, s), r);
}
verus! {
pub broadcast proof fn b_cut_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures
        #![trigger encode_utf8(s.take(k))]
        blen(s) == blen(s.take(k)) + blen(s.skip(k)),
        is_char_boundary(encode_utf8(s), blen(s.take(k)) as int),
        encode_utf8(s).subrange(blen(s.take(k)) as int, blen(s) as int) == encode_utf8(s.skip(k)),
        encode_utf8(s).subrange(0, blen(s.take(k)) as int) == encode_utf8(s.take(k)),
{ lemma_cut_split(s, k) }


pub broadcast proof fn b_skip0(s: Seq<char>)
    ensures #[trigger] s.skip(0) == s
{ assert(s.skip(0) =~= s); }

pub broadcast proof fn b_take0(s: Seq<char>)
    ensures #[trigger] s.take(0) == Seq::<char>::empty(), blen(Seq::<char>::empty()) == 0
{ assert(s.take(0) =~= Seq::<char>::empty()); lemma_blen_empty(); }

pub broadcast proof fn b_take_all(s: Seq<char>)
    ensures #[trigger] s.take(s.len() as int) == s
{ assert(s.take(s.len() as int) =~= s); }


pub broadcast proof fn b_boundary_ends(s: Seq<char>)
    ensures
        #![trigger encode_utf8(s)]
        is_char_boundary(encode_utf8(s), blen(s) as int),
        is_char_boundary(encode_utf8(s), 0),
{
    b_take_all(s);
    b_take0(s);
    lemma_cut_split(s, s.len() as int);
    lemma_cut_split(s, 0);
}

pub broadcast group group_str { lemma_decode, b_boundary_ends, b_cut_split, b_skip0, b_take0, b_take_all }

}
