// What is reported for a text that is no cfg expression.
use vstd::prelude::*;
use crate::ustr::*;
use crate::lexspec::*;
use crate::numspec::*;
use crate::treespec::*;
use crate::gramspec::*;
use crate::gramspec::machine::*;
use crate::failspec::*;

verus! {

/// Where a function that is not complete stands: its name, and its opening parenthesis (0: not yet read).
pub struct FLoc { pub start: int, pub end: int, pub paren: int }

/// Where the parts of a machine state stand in the text, in bytes.
pub struct Loc { pub frames: Seq<FLoc>, pub key: (int, int), pub val: (int, int) }

pub open spec fn loc0() -> Loc {
    Loc { frames: Seq::empty(), key: (0, 0), val: (0, 0) }
}

/// The token `t` at the bytes `a..b` was read.
pub open spec fn lstep(l: Loc, t: Tok, a: int, b: int) -> Loc {
    match t {
        Tok::Key(_) => Loc { key: (a, b), ..l },
        Tok::Value(_) => Loc { val: (a + 1, b - 1), ..l },
        Tok::Equals | Tok::Comma => l,
        Tok::All | Tok::Any | Tok::Not => Loc { frames: l.frames.push(FLoc { start: a, end: b, paren: 0 }), ..l },
        Tok::Open => if l.frames.len() > 0 {
            Loc { frames: l.frames.drop_last().push(FLoc { paren: a, ..l.frames.last() }), ..l }
        } else { l },
        Tok::Close => if l.frames.len() > 0 { Loc { frames: l.frames.drop_last(), ..l } } else { l },
    }
}

/// The terms that are named where a token is not expected, by the token before it.
pub open spec fn expected(last: Option<Tok>) -> Seq<Seq<char>> {
    match last {
        None => at_start(),
        Some(t) => match t {
            Tok::All | Tok::Any | Tok::Not => seq!["("@],
            Tok::Close => seq![")"@, ","@],
            Tok::Comma => seq![")"@, "<key>"@],
            Tok::Equals => seq!["\""@],
            Tok::Key(_) => seq!["="@, ","@, ")"@],
            Tok::Value(_) => seq![","@, ")"@],
            Tok::Open => seq!["<key>"@, ")"@, "all"@, "any"@, "not"@],
        },
    }
}

pub open spec fn bare(k: Seq<char>) -> bool {
    k == "unix"@ || k == "windows"@ || k == "test"@ || k == "debug_assertions"@ || k == "proc_macro"@
}

pub open spec fn target_names() -> Seq<Seq<char>> {
    seq!["target_arch"@, "target_feature"@, "target_os"@, "target_family"@, "target_env"@, "target_endian"@, "target_has_atomic"@, "target_pointer_width"@, "target_vendor"@]
}

pub open spec fn fail(reason: SReason, at: (int, int)) -> Fail {
    Fail { reason, start: at.0, end: at.1 }
}

/// Why `k` or `k = "v"` is no option; the name stands at `ks`, the value at `vs`.
pub open spec fn option_fail(k: Seq<char>, v: Option<Seq<char>>, ks: (int, int), vs: (int, int)) -> Fail {
    if bare(k) {
        fail(SReason::Unexpected(Seq::empty()), vs)
    } else if k == "feature"@ {
        fail(SReason::Unexpected(seq!["= \"<feature_name>\""@]), ks)
    } else if k == "panic"@ {
        fail(SReason::Unexpected(seq!["= \"<panic_strategy>\""@]), ks)
    } else if v is None {
        fail(SReason::Unexpected(seq!["= \"<target_cfg_value>\""@]), ks)
    } else {
        let name = k.skip(7);
        if name == "feature"@ { fail(SReason::Unexpected(seq!["<feature>"@]), vs) }
        else if name == "endian"@ || name == "pointer_width"@ { fail(SReason::InvalidInteger, vs) }
        else if name == "has_atomic"@ { fail(SReason::InvalidHasAtomic, vs) }
        else { fail(SReason::Unexpected(target_names()), ks) }
    }
}

/// Where the value stands, if there is one.
pub open spec fn val_at(v: Option<Seq<char>>, vs: (int, int)) -> (int, int) {
    if v is Some { vs } else { (0, 0) }
}

/// Operands of the innermost function, the pending option included.
pub open spec fn n_operands(s: St) -> nat {
    flen(s.frames.last().kids) + if s.key is Some { 1nat } else { 0 }
}

/// Why the token `t` at `a..b` cannot be read in this state.
pub open spec fn step_fail(s: St, l: Loc, t: Tok, a: int, b: int) -> Fail {
    let unexpected = fail(SReason::Unexpected(expected(s.last)), (a, b));
    match t {
        Tok::Close =>
            if s.last is None || func_of(s.last->0) is Some || s.last->0 is Equals { unexpected }
            else if s.frames.len() == 0 { fail(SReason::UnopenedParens, (a, b)) }
            else if s.frames.last().op is Not && n_operands(s) != 1 { fail(SReason::InvalidNot(n_operands(s)), (l.frames.last().start, b)) }
            else { option_fail(s.key->0, s.val, l.key, val_at(s.val, l.val)) },
        Tok::Comma =>
            if at_item(s) || func_of(s.last->0) is Some || s.last->0 is Equals { unexpected }
            else { option_fail(s.key->0, s.val, l.key, val_at(s.val, l.val)) },
        _ => unexpected,
    }
}

/// Why the text, which has `len` bytes, cannot end in this state.
pub open spec fn end_fail(s: St, l: Loc, len: int) -> Fail {
    if s.last is Some && s.last->0 is Equals {
        fail(SReason::Unexpected(seq!["\"<value>\""@]), (len, len))
    } else if s.frames.len() > 0 {
        let f = l.frames.last();
        if f.paren != 0 { fail(SReason::UnclosedParens, (f.paren, len)) }
        else { fail(SReason::Unexpected(seq!["("@]), (f.start, f.end)) }
    } else if s.key is Some && classify(s.key->0, s.val) is None {
        option_fail(s.key->0, s.val, l.key, val_at(s.val, l.val))
    } else if s.key is None && s.roots is Nil {
        fail(SReason::Empty, (0, len))
    } else {
        fail(SReason::MultipleRoots, (0, len))
    }
}

/// What no token can start with.
pub open spec fn lex_fail(e: LexErr, a: int, b: int, len: int) -> Fail {
    match e {
        LexErr::Unclosed => fail(SReason::UnclosedQuotes, (a, len)),
        LexErr::BadChar(_) => fail(SReason::Unexpected(at_start()), (a, b)),
    }
}

/// The first fault of `text` from character `p` on.
pub open spec fn text_fail(s: St, l: Loc, text: Seq<char>, p: int) -> Fail
    decreases text.len() - p
{
    let at = |i: int| blen(text.take(i)) as int;
    match lex1(text.skip(p)) {
        Step::End => end_fail(s, l, blen(text) as int),
        Step::Bad(w, e) => lex_fail(e, at(p + w), at(p + w + 1), blen(text) as int),
        Step::Tok(w, n, t) =>
            if 0 <= w && 0 < n && p + w + n <= text.len() {
                match step(s, t) {
                    Some(u) => text_fail(u, lstep(l, t, at(p + w), at(p + w + n)), text, p + w + n),
                    None => step_fail(s, l, t, at(p + w), at(p + w + n)),
                }
            } else { arbitrary() },
    }
}

/// What is reported for `text` if it denotes nothing.
pub open spec fn failure(text: Seq<char>) -> Fail {
    text_fail(init(), loc0(), strip(text), 0)
}

}

pub mod marks {
// What the spans of the reported faults mark.
use vstd::prelude::*;
use super::*;
verus! {

/// `w` is written at byte `a` of `text`.
pub open spec fn written(text: Seq<char>, a: int, w: Seq<char>) -> bool {
    exists|i: int| is_at(text, i, a, w)
}

pub open spec fn is_at(text: Seq<char>, i: int, a: int, w: Seq<char>) -> bool {
    0 <= i && i + w.len() <= text.len() && #[trigger] blen(text.take(i)) == a && text.subrange(i, i + w.len()) == w
}

/// The span marks what the reason speaks of.
pub open spec fn marked(text: Seq<char>, f: Fail) -> bool {
    match f.reason {
        SReason::UnclosedParens => written(text, f.start, seq!['(']) && f.end == blen(text),
        SReason::UnopenedParens => written(text, f.start, seq![')']) && f.end == f.start + 1,
        SReason::UnclosedQuotes => written(text, f.start, seq!['"']) && f.end == blen(text),
        SReason::InvalidNot(n) => n != 1 && written(text, f.start, seq!['n', 'o', 't']) && written(text, f.end - 1, seq![')']),
        SReason::Empty | SReason::MultipleRoots => f.start == 0 && f.end == blen(text),
        _ => true,
    }
}

pub open spec fn something(s: St) -> bool {
    s.key is Some || !(s.roots is Nil) || s.frames.len() > 0
}

/// What the positions mark in every state that is reached.
pub open spec fn inv(s: St, l: Loc, text: Seq<char>) -> bool {
    &&& s.frames.len() == l.frames.len()
    &&& forall|i: int| 0 <= i < s.frames.len() && s.frames[i].op is Not ==> written(text, (#[trigger] l.frames[i]).start, seq!['n', 'o', 't'])
    &&& forall|i: int| 0 <= i < s.frames.len() && l.frames[i].paren != 0 ==> written(text, (#[trigger] l.frames[i]).paren, seq!['('])
    &&& s.last is Some ==> something(s)
}

proof fn lemma_step(s: St, l: Loc, text: Seq<char>, t: Tok, a: int, b: int)
    requires
        inv(s, l, text),
        step(s, t) is Some,
        t is Not ==> written(text, a, seq!['n', 'o', 't']),
        t is Open ==> written(text, a, seq!['(']),
    ensures
        inv(step(s, t)->0, lstep(l, t, a, b), text),
        step(s, t)->0.last == Some(t),
{
}

/// A token is written where it stands.
proof fn lemma_token(text: Seq<char>, p: int)
    requires
        0 <= p <= text.len(),
    ensures
        match lex1(text.skip(p)) {
            Step::End => true,
            Step::Bad(w, e) => 0 <= w && p + w < text.len() && (e is Unclosed ==> written(text, blen(text.take(p + w)) as int, seq!['"'])),
            Step::Tok(w, n, t) => {
                let a = blen(text.take(p + w)) as int;
                let b = blen(text.take(p + w + n)) as int;
                &&& 0 <= w && 0 < n && p + w + n <= text.len()
                &&& t is Not ==> written(text, a, seq!['n', 'o', 't'])
                &&& t is Open ==> written(text, a, seq!['('])
                &&& t is Close ==> written(text, a, seq![')']) && b == a + 1
            },
        },
{
    let s = text.skip(p);
    lemma_lex1(s);
    lemma_lex_step(text, p);
    let w = prefix_len(s, f_ws()) as int;
    let t = s.skip(w);
    if t.len() > 0 {
        let a = blen(text.take(p + w)) as int;
        let c = t[0];
        assert(text.subrange(p + w, p + w + 1) =~= seq![c]);
        assert(is_at(text, p + w, a, seq![c]));
        if tok_at(t) is Ok && tok_at(t)->Ok_0.1 is Not {
            let n = tok_at(t)->Ok_0.0;
            assert(t.take(n) =~= text.subrange(p + w, p + w + n));
            assert(seq!['n', 'o', 't'].len() == 3);
            assert(is_at(text, p + w, a, seq!['n', 'o', 't']));
        }
    }
}

proof fn lemma_text_fail(s: St, l: Loc, text: Seq<char>, p: int)
    requires
        0 <= p <= text.len(),
        inv(s, l, text),
        blen(text.take(0)) == 0,
    ensures
        marked(text, text_fail(s, l, text, p)),
        s.last is Some ==> !(text_fail(s, l, text, p).reason is Empty),
    decreases text.len() - p,
{
    lemma_token(text, p);
    match lex1(text.skip(p)) {
        Step::Tok(w, n, t) => {
            let a = blen(text.take(p + w)) as int;
            let b = blen(text.take(p + w + n)) as int;
            match step(s, t) {
                Some(u) => {
                    lemma_step(s, l, text, t, a, b);
                    lemma_text_fail(u, lstep(l, t, a, b), text, p + w + n);
                }
                None => {}
            }
        }
        _ => {}
    }
}

/// Parentheses and quotes that are reported are there, `not` is reported with its list, and the text is
/// called empty exactly if it holds no token.
pub proof fn theorem_marks(text: Seq<char>)
    ensures
        marked(strip(text), failure(text)),
        failure(text).reason is Empty <==> lex1(strip(text)) is End,
{
    let t = strip(text);
    lemma_blen_empty();
    assert(t.take(0) =~= Seq::empty());
    assert(t.skip(0) =~= t);
    lemma_text_fail(init(), loc0(), t, 0);
    lemma_token(t, 0);
    match lex1(t) {
        Step::Tok(w, n, tok) => {
            let a = blen(t.take(w)) as int;
            let b = blen(t.take(w + n)) as int;
            match step(init(), tok) {
                Some(u) => {
                    lemma_step(init(), loc0(), t, tok, a, b);
                    lemma_text_fail(u, lstep(loc0(), tok, a, b), t, w + n);
                }
                None => {}
            }
        }
        _ => {}
    }
}

}
}
