// The lexical grammar of cfg expressions.
use vstd::prelude::*;
use vstd::utf8::*;
use crate::ustr::*;

verus! {

pub enum Tok {
    Key(Seq<char>),
    Value(Seq<char>),
    Equals,
    All,
    Any,
    Not,
    Open,
    Close,
    Comma,
}

pub open spec fn is_start(c: char) -> bool {
    c == '_' || 'a' <= c <= 'z' || 'A' <= c <= 'Z'
}

pub open spec fn is_rest(c: char) -> bool {
    is_start(c) || '0' <= c <= '9'
}

/// Length of the longest prefix of `s` that consists of characters in `f`.
pub open spec fn prefix_len(s: Seq<char>, f: spec_fn(char) -> bool) -> nat
    decreases s.len()
{
    if s.len() == 0 || !f(s[0]) {
        0
    } else {
        1 + prefix_len(s.drop_first(), f)
    }
}

pub proof fn lemma_prefix_len(s: Seq<char>, f: spec_fn(char) -> bool)
    ensures
        prefix_len(s, f) <= s.len(),
        forall|i: int| 0 <= i < prefix_len(s, f) ==> f(#[trigger] s[i]),
        prefix_len(s, f) < s.len() ==> !f(s[prefix_len(s, f) as int]),
    decreases s.len()
{
    if s.len() == 0 || !f(s[0]) {
    } else {
        let t = s.drop_first();
        lemma_prefix_len(t, f);
        assert forall|i: int| 0 <= i < prefix_len(s, f) implies f(#[trigger] s[i]) by {
            if i > 0 {
                assert(s[i] == t[i - 1]);
            }
        }
    }
}

/// The length is determined by these facts.
pub proof fn lemma_prefix_len_is(s: Seq<char>, f: spec_fn(char) -> bool, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < n ==> f(#[trigger] s[i]),
        n < s.len() ==> !f(s[n]),
    ensures prefix_len(s, f) == n,
{
    lemma_prefix_len(s, f);
    let m = prefix_len(s, f) as int;
    if m < n {
        assert(f(s[m]));
    } else if n < m {
        assert(f(s[n]));
    }
}

pub enum LexErr {
    /// a `"` without a second one
    Unclosed,
    /// a character that starts no token
    BadChar(char),
}

pub enum Step {
    /// Nothing but whitespace is left.
    End,
    /// `ws` characters of whitespace, followed by a token of `n` characters.
    Tok(int, int, Tok),
    /// `ws` characters of whitespace, followed by something that is no token.
    Bad(int, LexErr),
}

pub open spec fn word(s: Seq<char>) -> Tok {
    if s == seq!['a', 'l', 'l'] {
        Tok::All
    } else if s == seq!['a', 'n', 'y'] {
        Tok::Any
    } else if s == seq!['n', 'o', 't'] {
        Tok::Not
    } else {
        Tok::Key(s)
    }
}

pub open spec fn not_quote() -> spec_fn(char) -> bool {
    |c: char| c != '"'
}

pub open spec fn f_ws() -> spec_fn(char) -> bool {
    |c: char| is_ws(c)
}

pub open spec fn f_rest() -> spec_fn(char) -> bool {
    |c: char| is_rest(c)
}

/// The token at the start of `t`, which starts with no whitespace.
pub open spec fn tok_at(t: Seq<char>) -> Result<(int, Tok), LexErr>
    recommends t.len() > 0
{
    let c = t[0];
    if c == '=' {
        Ok((1, Tok::Equals))
    } else if c == '(' {
        Ok((1, Tok::Open))
    } else if c == ')' {
        Ok((1, Tok::Close))
    } else if c == ',' {
        Ok((1, Tok::Comma))
    } else if c == '"' {
        let n = prefix_len(t.drop_first(), not_quote()) as int;
        if n < t.len() - 1 {
            Ok((n + 2, Tok::Value(t.subrange(1, n + 1))))
        } else {
            Err(LexErr::Unclosed)
        }
    } else if is_start(c) {
        let n = prefix_len(t, f_rest());
        Ok((n as int, word(t.take(n as int))))
    } else {
        Err(LexErr::BadChar(c))
    }
}

/// One step of the lexer: the next token of `s`.
pub open spec fn lex1(s: Seq<char>) -> Step {
    let w = prefix_len(s, f_ws()) as int;
    let t = s.skip(w);
    if t.len() == 0 {
        Step::End
    } else {
        match tok_at(t) {
            Ok((n, tok)) => Step::Tok(w, n, tok),
            Err(e) => Step::Bad(w, e),
        }
    }
}

/// `cfg(` text `)` stands for the text itself.
pub open spec fn strip(s: Seq<char>) -> Seq<char> {
    if seq!['c', 'f', 'g', '('].is_prefix_of(s) && s.len() > 0 && s.last() == ')' {
        s.subrange(4, s.len() - 1)
    } else {
        s
    }
}

pub proof fn lemma_lex1(s: Seq<char>)
    ensures match lex1(s) {
        Step::End => true,
        Step::Tok(w, n, _) => 0 <= w && 0 < n && w + n <= s.len(),
        Step::Bad(w, _) => 0 <= w < s.len(),
    }
{
    let w = prefix_len(s, f_ws()) as int;
    lemma_prefix_len(s, f_ws());
    let t = s.skip(w);
    if t.len() > 0 {
        lemma_prefix_len(t.drop_first(), not_quote());
        lemma_prefix_len(t, f_rest());
        lemma_prefix_len_is(t, f_rest(), prefix_len(t, f_rest()) as int);
    }
}

}
verus! {
/// Number of bytes of a token.
pub open spec fn tok_len(t: Tok) -> nat {
    match t {
        Tok::Key(s) => blen(s),
        Tok::Value(s) => blen(s) + 2,
        Tok::Equals | Tok::Open | Tok::Close | Tok::Comma => 1,
        Tok::All | Tok::Any | Tok::Not => 3,
    }
}
pub proof fn lemma_strip(s: Seq<char>)
    ensures
        seq!['c', 'f', 'g', '('].is_prefix_of(s) && s.len() > 0 && s.last() == ')' ==> {
            &&& s.len() >= 5
            &&& blen(s.take(4)) == 4
            &&& blen(s.take(s.len() - 1)) == blen(s) - 1
            &&& text_sub(s, 4, blen(s) - 1) == s.subrange(4, s.len() - 1)
            &&& span_ok(s, 4, blen(s) - 1)
        },
        blen(Seq::<char>::empty()) == 0
{
    lemma_blen_empty();
    if seq!['c', 'f', 'g', '('].is_prefix_of(s) && s.len() > 0 && s.last() == ')' {
        let p = seq!['c', 'f', 'g', '('];
        assert(p.len() == 4);
        assert(s[3] == p[3]);
        assert(s.len() >= 5);
        assert(s.take(4) =~= p);
        lemma_blen_ge_len(s.take(4));
        lemma_cut_split(s, s.len() - 1);
        assert(s.skip(s.len() - 1) =~= seq![')']);
        lemma_blen_char(')');
        lemma_sub(s, 4, s.len() - 1);
    }
}
}

verus! {
pub broadcast proof fn b_prefix_len(s: Seq<char>, f: spec_fn(char) -> bool, n: int)
    requires
        0 <= n <= s.len(),
        forall|i: int| 0 <= i < n ==> f(#[trigger] s[i]),
        n < s.len() ==> !f(s[n]),
    ensures
        #![trigger encode_utf8(s.take(n)), prefix_len(s, f)]
        prefix_len(s, f) == n,
{
    lemma_prefix_len_is(s, f, n);
}
pub broadcast proof fn b_prefix_len_all(s: Seq<char>, f: spec_fn(char) -> bool)
    requires
        forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]),
    ensures
        #![trigger prefix_len(s, f)]
        prefix_len(s, f) == s.len(),
{
    lemma_prefix_len_is(s, f, s.len() as int);
}
pub broadcast group group_lex { b_prefix_len, b_prefix_len_all }
}

verus! {
/// `t` starts with a one-byte character: byte positions in `t` and in the rest of it.
pub proof fn lemma_first(t: Seq<char>)
    requires
        t.len() > 0,
        is_ascii_char(t[0]),
    ensures
        blen(t.take(1)) == 1,
        blen(t.skip(1)) == blen(t) - 1,
        t.skip(1) == t.drop_first(),
        span_ok(t, 1, blen(t) as int),
        encode_utf8(t).subrange(1, blen(t) as int) == encode_utf8(t.skip(1)),
        forall|k: int| 0 <= k < t.len() ==> {
            let u = #[trigger] t.skip(1).take(k);
            &&& blen(t.take(k + 1)) == 1 + blen(u)
            &&& encode_utf8(t).subrange(1, 1 + blen(u) as int) == encode_utf8(u)
            &&& u == t.subrange(1, k + 1)
        },
{
    lemma_cut_split(t, 1);
    assert(t.take(1) =~= seq![t[0]]);
    lemma_blen_char(t[0]);
    b_boundary_ends(t);
    assert(t.skip(1) =~= t.drop_first());
    assert forall|k: int| 0 <= k < t.len() implies {
        let u = #[trigger] t.skip(1).take(k);
        &&& blen(t.take(k + 1)) == 1 + blen(u)
        &&& encode_utf8(t).subrange(1, 1 + blen(u) as int) == encode_utf8(u)
        &&& u == t.subrange(1, k + 1)
    } by {
        let u = t.skip(1).take(k);
        assert(u =~= t.subrange(1, k + 1));
        lemma_slice(t, 1, k + 1);
        lemma_cut_mono(t, 1, k + 1);
    }
}

/// Everything about byte positions around the next token of `s`, the text
/// that is left of `text` from character `p` on.
pub proof fn lemma_lex_step(text: Seq<char>, p: int)
    requires
        0 <= p <= text.len(),
    ensures ({
        let s = text.skip(p);
        let w = prefix_len(s, f_ws()) as int;
        let t = s.skip(w);
        &&& 0 <= w <= s.len()
        &&& t == text.skip(p + w)
        &&& blen(text.take(p + w)) == blen(text.take(p)) + blen(s.take(w))
        &&& blen(text) == blen(text.take(p + w)) + blen(t)
        &&& t.len() > 0 && is_start(t[0]) ==> {
            &&& prefix_len(t, f_rest()) == 1 + prefix_len(t.skip(1), f_rest())
            &&& prefix_len(t.skip(1), f_rest()) <= t.skip(1).len()
        }
        &&& t.len() > 0 ==> match tok_at(t) {
            Ok((n, tok)) => {
                &&& 0 < n <= t.len()
                &&& tok_len(tok) == blen(t.take(n))
                &&& tok_len(tok) <= blen(t)
                &&& blen(text.take(p + w + n)) == blen(text.take(p + w)) + tok_len(tok)
                &&& t.skip(n) == text.skip(p + w + n)
                &&& s.skip(w + n) == t.skip(n)
            }
            Err(e) => {
                &&& blen(text.take(p + w + 1)) == blen(text.take(p + w)) + blen(seq![t[0]])
                &&& blen(text.take(p + w + 1)) <= blen(text)
                &&& blen(seq![t[0]]) == encode_scalar(t[0] as u32).len()
            }
        }
    }),
{
    let s = text.skip(p);
    let w = prefix_len(s, f_ws()) as int;
    lemma_prefix_len(s, f_ws());
    let t = s.skip(w);
    assert(t =~= text.skip(p + w));
    lemma_cut_mono(text, p, p + w);
    assert(text.subrange(p, p + w) =~= s.take(w));
    lemma_cut_split(text, p + w);
    lemma_lex1(s);
    if t.len() > 0 {
        assert(t.skip(1) =~= t.drop_first());
        lemma_blen_char(t[0]);
        lemma_prefix_len(t.skip(1), f_rest());
        match tok_at(t) {
            Ok((n, tok)) => {
                lemma_tok_len(t);
                lemma_cut_mono(text, p + w, p + w + n);
                assert(text.subrange(p + w, p + w + n) =~= t.take(n));
                assert(t.skip(n) =~= text.skip(p + w + n));
                assert(s.skip(w + n) =~= t.skip(n));
                lemma_cut_split(t, n);
            }
            Err(e) => {
                lemma_cut_mono(text, p + w, p + w + 1);
                assert(text.subrange(p + w, p + w + 1) =~= seq![t[0]]);
                lemma_cut_split(text, p + w + 1);
            }
        }
    }
}

pub proof fn lemma_tok_len(t: Seq<char>)
    requires
        t.len() > 0,
        tok_at(t) is Ok,
    ensures ({
        let (n, tok) = tok_at(t)->Ok_0;
        0 < n <= t.len() && tok_len(tok) == blen(t.take(n))
    }),
{
    let (n, tok) = tok_at(t)->Ok_0;
    lemma_prefix_len(t.drop_first(), not_quote());
    lemma_prefix_len(t, f_rest());
    lemma_prefix_len_is(t, f_rest(), prefix_len(t, f_rest()) as int);
    if t[0] == '"' {
        let k = n - 2;
        lemma_first(t);
        assert(t.take(n) =~= seq!['"'] + t.subrange(1, n - 1) + seq!['"']);
        lemma_blen_concat(seq!['"'] + t.subrange(1, n - 1), seq!['"']);
        lemma_blen_concat(seq!['"'], t.subrange(1, n - 1));
        lemma_blen_char('"');
    } else {
        lemma_blen_ge_len(t.take(n));
        assert forall|i: int| 0 <= i < n implies is_ascii_char(#[trigger] t.take(n)[i]) by {
            assert(t.take(n)[i] == t[i]);
            if is_start(t[0]) {
                assert(f_rest()(t[i]));
            }
        }
        if is_start(t[0]) {
            let wd = t.take(n);
            assert(wd.len() == n);
            match word(wd) {
               Tok::Key(x) => { assert(x == wd); }
               Tok::All => { assert(wd == seq!['a', 'l', 'l']); assert(seq!['a', 'l', 'l'].len() == 3); }
               Tok::Any => { assert(wd == seq!['a', 'n', 'y']); assert(seq!['a', 'n', 'y'].len() == 3); }
               Tok::Not => { assert(wd == seq!['n', 'o', 't']);  assert(seq!['n', 'o', 't'].len() == 3);}
               _ => {}
            }
        }
    }
}

}
