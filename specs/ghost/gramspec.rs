// The grammar of cfg expressions.
use vstd::prelude::*;
use crate::ustr::*;
use crate::lexspec::*;
use crate::numspec::*;
use crate::treespec::*;

verus! {

// ---- which option a name and a value stand for

pub open spec fn is_target_key(k: Seq<char>) -> bool {
    "target_"@.is_prefix_of(k)
}

pub open spec fn classify_target(name: Seq<char>, v: Seq<char>) -> Option<SPred> {
    if name == "abi"@ { Some(SPred::Field(Field::Abi, v)) }
    else if name == "arch"@ { Some(SPred::Field(Field::Arch, v)) }
    else if name == "feature"@ { if v.len() == 0 { None } else { Some(SPred::TargetFeature(v)) } }
    else if name == "os"@ { Some(SPred::Field(Field::Os, v)) }
    else if name == "family"@ { Some(SPred::Field(Field::Family, v)) }
    else if name == "env"@ { Some(SPred::Field(Field::Env, v)) }
    else if name == "endian"@ {
        if v == seq!['b', 'i', 'g'] { Some(SPred::Endian(true)) }
        else if v == seq!['l', 'i', 't', 't', 'l', 'e'] { Some(SPred::Endian(false)) }
        else { None }
    }
    else if name == "has_atomic"@ {
        if is_dec(v, 65535) { Some(SPred::HasAtomic(Some(dec_val(dec_body(v))))) }
        else if v == seq!['p', 't', 'r'] { Some(SPred::HasAtomic(None)) }
        else { None }
    }
    else if name == "pointer_width"@ {
        if is_dec(v, 255) { Some(SPred::PointerWidth(dec_val(dec_body(v)))) } else { None }
    }
    else if name == "vendor"@ { Some(SPred::Field(Field::Vendor, v)) }
    else { None }
}

/// The option `k` or `k = "v"`, if it is one.
pub open spec fn classify(k: Seq<char>, val: Option<Seq<char>>) -> Option<SPred> {
    if k == "unix"@ || k == "windows"@ {
        if val is None { Some(SPred::Field(Field::Family, k)) } else { None }
    } else if k == "test"@ {
        if val is None { Some(SPred::Test) } else { None }
    } else if k == "debug_assertions"@ {
        if val is None { Some(SPred::DebugAssertions) } else { None }
    } else if k == "proc_macro"@ {
        if val is None { Some(SPred::ProcMacro) } else { None }
    } else if k == "feature"@ {
        match val { Some(v) => Some(SPred::Feature(v)), None => None }
    } else if k == "panic"@ {
        match val { Some(v) => Some(SPred::Field(Field::Panic, v)), None => None }
    } else if is_target_key(k) {
        match val { Some(v) => classify_target(k.skip(7), v), None => None }
    } else {
        match val { Some(v) => Some(SPred::KeyValue(k, v)), None => Some(SPred::Flag(k)) }
    }
}

// ---- the grammar, on tokens

pub open spec fn func_of(t: Tok) -> Option<Op> {
    match t {
        Tok::All => Some(Op::All),
        Tok::Any => Some(Op::Any),
        Tok::Not => Some(Op::Not),
        _ => None,
    }
}

/// A predicate at the start of `ts`, and the tokens behind it:
/// `key`, `key = "value"`, or a function with a list in parentheses.
pub open spec fn g_pred(ts: Seq<Tok>) -> Option<(Tree, Seq<Tok>)>
    decreases ts.len(), 0int
{
    if ts.len() == 0 {
        None
    } else if ts[0] is Key {
        if ts.len() > 1 && ts[1] is Equals {
            if ts.len() > 2 && ts[2] is Value {
                match classify(ts[0]->Key_0, Some(ts[2]->Value_0)) {
                    Some(p) => Some((Tree::Leaf(p), ts.skip(3))),
                    None => None,
                }
            } else {
                None
            }
        } else {
            match classify(ts[0]->Key_0, None) {
                Some(p) => Some((Tree::Leaf(p), ts.skip(1))),
                None => None,
            }
        }
    } else if func_of(ts[0]) is Some && ts.len() > 1 && ts[1] is Open {
        let op = func_of(ts[0])->0;
        match g_list(ts.skip(2), Forest::Nil) {
            Some((f, rest)) => if op is Not && flen(f) != 1 { None } else { Some((Tree::Node(op, Box::new(f)), rest)) },
            None => None,
        }
    } else {
        None
    }
}

/// The rest of a list whose members so far are `f`, up to and including the closing parenthesis:
/// members separated by commas, perhaps with one comma behind the last.
pub open spec fn g_list(ts: Seq<Tok>, f: Forest) -> Option<(Forest, Seq<Tok>)>
    decreases ts.len(), 1int
{
    if ts.len() == 0 {
        None
    } else if ts[0] is Close {
        Some((f, ts.skip(1)))
    } else {
        match g_pred(ts) {
            Some((t, rest)) => {
                let f2 = Forest::Snoc(Box::new(f), Box::new(t));
                if rest.len() == 0 || rest.len() >= ts.len() {
                    None
                } else if rest[0] is Close {
                    Some((f2, rest.skip(1)))
                } else if rest[0] is Comma {
                    g_list(rest.skip(1), f2)
                } else {
                    None
                }
            }
            None => None,
        }
    }
}

/// A whole expression: one predicate, perhaps with a comma behind it.
pub open spec fn g_top(ts: Seq<Tok>) -> Option<Tree> {
    match g_pred(ts) {
        Some((t, rest)) => if rest.len() == 0 || (rest.len() == 1 && rest[0] is Comma) { Some(t) } else { None },
        None => None,
    }
}

/// The tokens of a text.
pub open spec fn toks(s: Seq<char>) -> Option<Seq<Tok>>
    decreases s.len()
{
    match lex1(s) {
        Step::End => Some(Seq::empty()),
        Step::Tok(w, n, t) => if 0 <= w && 0 < n && w + n <= s.len() {
            match toks(s.skip(w + n)) {
                Some(ts) => Some(seq![t] + ts),
                None => None,
            }
        } else {
            None
        },
        Step::Bad(_, _) => None,
    }
}

/// What a text denotes, if it is a cfg expression.
pub open spec fn denotes(text: Seq<char>) -> Option<Tree> {
    match toks(strip(text)) {
        Some(ts) => g_top(ts),
        None => None,
    }
}

/// The side condition `rest.len() < ts.len()` in g_list always holds.
pub proof fn lemma_pred_shorter(ts: Seq<Tok>)
    ensures match g_pred(ts) { Some((_, rest)) => rest.len() < ts.len(), None => true }
    decreases ts.len(), 0int
{
    if ts.len() > 1 && !(ts[0] is Key) { lemma_list_shorter(ts.skip(2), Forest::Nil); }
}

pub proof fn lemma_list_shorter(ts: Seq<Tok>, f: Forest)
    ensures match g_list(ts, f) { Some((_, rest)) => rest.len() < ts.len(), None => true }
    decreases ts.len(), 1int
{
    if ts.len() > 0 && !(ts[0] is Close) {
        lemma_pred_shorter(ts);
        match g_pred(ts) {
            Some((t, rest)) => {
                if rest.len() > 0 && rest.len() < ts.len() {
                    lemma_list_shorter(rest.skip(1), Forest::Snoc(Box::new(f), Box::new(t)));
                }
            }
            None => {}
        }
    }
}

/// `not` has one operand, everywhere.
pub proof fn lemma_pred_wf(ts: Seq<Tok>)
    ensures match g_pred(ts) { Some((t, _)) => wf_tree(t), None => true }
    decreases ts.len(), 0int
{
    if ts.len() > 1 && !(ts[0] is Key) { lemma_list_wf(ts.skip(2), Forest::Nil); }
}

pub proof fn lemma_list_wf(ts: Seq<Tok>, f: Forest)
    requires wf_forest(f)
    ensures match g_list(ts, f) { Some((g, _)) => wf_forest(g), None => true }
    decreases ts.len(), 1int
{
    if ts.len() > 0 && !(ts[0] is Close) {
        lemma_pred_wf(ts);
        match g_pred(ts) {
            Some((t, rest)) => {
                if rest.len() > 0 && rest.len() < ts.len() {
                    lemma_list_wf(rest.skip(1), Forest::Snoc(Box::new(f), Box::new(t)));
                }
            }
            None => {}
        }
    }
}

pub proof fn lemma_denotes_wf(text: Seq<char>)
    ensures denotes(text) matches Some(t) ==> wf_tree(t)
{
    match toks(strip(text)) {
        Some(ts) => lemma_pred_wf(ts),
        None => {}
    }
}

}

pub mod machine {
// The parser as a machine that reads one token after the other.
use vstd::prelude::*;
use super::*;
verus! {

pub struct Frame { pub op: Op, pub kids: Forest }

pub struct St {
    pub frames: Seq<Frame>,
    pub roots: Forest,
    pub last: Option<Tok>,
    pub key: Option<Seq<char>>,
    pub val: Option<Seq<char>>,
}

pub open spec fn init() -> St {
    St { frames: Seq::empty(), roots: Forest::Nil, last: None, key: None, val: None }
}

pub open spec fn snoc(f: Forest, t: Tree) -> Forest {
    Forest::Snoc(Box::new(f), Box::new(t))
}

/// `t` becomes a member of the innermost function, or a root.
pub open spec fn add(s: St, t: Tree) -> St {
    if s.frames.len() > 0 {
        let top = s.frames.last();
        St { frames: s.frames.drop_last().push(Frame { op: top.op, kids: snoc(top.kids, t) }), ..s }
    } else {
        St { roots: snoc(s.roots, t), ..s }
    }
}

/// The pending option, if there is one, is added.
pub open spec fn flush(s: St) -> Option<St> {
    match s.key {
        None => Some(St { key: None, val: None, ..s }),
        Some(k) => match classify(k, s.val) {
            Some(p) => Some(St { key: None, val: None, ..add(s, Tree::Leaf(p)) }),
            None => None,
        },
    }
}

/// An option or a function may come next.
pub open spec fn at_item(s: St) -> bool {
    s.last is None || s.last->0 is Open || s.last->0 is Comma
}

pub open spec fn step(s: St, t: Tok) -> Option<St> {
    match t {
        Tok::Key(k) => if at_item(s) { Some(St { key: Some(k), last: Some(t), ..s }) } else { None },
        Tok::Value(v) => if s.last is Some && s.last->0 is Equals { Some(St { val: Some(v), last: Some(t), ..s }) } else { None },
        Tok::Equals => if s.last is Some && s.last->0 is Key { Some(St { last: Some(t), ..s }) } else { None },
        Tok::All | Tok::Any | Tok::Not => if at_item(s) {
            Some(St { frames: s.frames.push(Frame { op: func_of(t)->0, kids: Forest::Nil }), last: Some(t), ..s })
        } else { None },
        Tok::Open => if s.last is Some && func_of(s.last->0) is Some { Some(St { last: Some(t), ..s }) } else { None },
        Tok::Close => if s.last is None || func_of(s.last->0) is Some || s.last->0 is Equals || s.frames.len() == 0 { None } else {
            match flush(s) {
                None => None,
                Some(u) => {
                    let top = u.frames.last();
                    if top.op is Not && flen(top.kids) != 1 { None } else {
                        Some(St { last: Some(t), ..add(St { frames: u.frames.drop_last(), ..u }, Tree::Node(top.op, Box::new(top.kids))) })
                    }
                }
            }
        },
        Tok::Comma => if at_item(s) || func_of(s.last->0) is Some || s.last->0 is Equals { None } else {
            match flush(s) { None => None, Some(u) => Some(St { last: Some(t), ..u }) }
        },
    }
}

pub open spec fn finish(s: St) -> Option<Tree> {
    if s.last is Some && s.last->0 is Equals { None }
    else if s.frames.len() > 0 { None }
    else {
        match flush(s) {
            None => None,
            Some(u) => match u.roots {
                Forest::Nil => None,
                Forest::Snoc(g, t) => if *g is Nil { Some(*t) } else { None },
            },
        }
    }
}

pub open spec fn exec(s: St, ts: Seq<Tok>) -> Option<Tree>
    decreases ts.len()
{
    if ts.len() == 0 { finish(s) } else {
        match step(s, ts[0]) { Some(u) => exec(u, ts.skip(1)), None => None }
    }
}

/// The machine reads the text directly.
pub open spec fn exec_text(s: St, text: Seq<char>) -> Option<Tree>
    decreases text.len()
{
    match lex1(text) {
        Step::End => finish(s),
        Step::Tok(w, n, t) => if 0 <= w && 0 < n && w + n <= text.len() {
            match step(s, t) { Some(u) => exec_text(u, text.skip(w + n)), None => None }
        } else { None },
        Step::Bad(_, _) => None,
    }
}

pub proof fn lemma_exec_text(s: St, text: Seq<char>)
    ensures exec_text(s, text) == (match toks(text) { Some(ts) => exec(s, ts), None => None })
    decreases text.len()
{
    match lex1(text) {
        Step::End => {}
        Step::Tok(w, n, t) => {
            if 0 <= w && 0 < n && w + n <= text.len() {
                let r = text.skip(w + n);
                match step(s, t) { Some(u) => { lemma_exec_text(u, r); } None => {} }
                match toks(r) {
                    Some(ts) => {
                        let all = seq![t] + ts;
                        assert(all.skip(1) =~= ts);
                        assert(all[0] == t);
                    }
                    None => {}
                }
            }
        }
        Step::Bad(_, _) => {}
    }
}

// ---- two roots are never accepted

pub open spec fn n_roots(s: St) -> nat {
    flen(s.roots) + if s.frames.len() > 0 || s.key is Some { 1nat } else { 0 }
}

pub proof fn lemma_two_roots(s: St, ts: Seq<Tok>)
    requires n_roots(s) >= 2
    ensures exec(s, ts) is None
    decreases ts.len()
{
    reveal_with_fuel(flen, 3);
    if ts.len() == 0 {
        match flush(s) {
            Some(u) => { match u.roots { Forest::Snoc(g, t) => { if *g is Nil { assert(flen(*g) == 0); } } _ => {} } }
            None => {}
        }
    } else {
        match step(s, ts[0]) {
            Some(u) => {
                assert(n_roots(u) >= n_roots(s)) by {
                    match flush(s) { Some(x) => { if ts[0] is Close { } } None => {} }
                }
                lemma_two_roots(u, ts.skip(1));
            }
            None => {}
        }
    }
}

// ---- the machine follows the grammar

/// The state after a leaf at an item position.
pub open spec fn after_leaf(s: St, k: Seq<char>, v: Option<Seq<char>>) -> St {
    St { key: Some(k), val: v, last: Some(match v { Some(x) => Tok::Value(x), None => Tok::Key(k) }), ..s }
}

/// `s` is where a member may start, and nothing is pending.
pub open spec fn ready(s: St) -> bool {
    at_item(s) && s.key is None && s.val is None
}

/// What follows a member `t` that was read at `s`, when `rest` is left: a closing parenthesis, a comma or the end.
pub open spec fn behind(s: St, t: Tree, rest: Seq<Tok>) -> Option<Tree> {
    let u = add(s, t);
    if rest.len() == 0 {
        finish(St { last: None, ..u })
    } else if rest[0] is Comma {
        exec(St { last: Some(Tok::Comma), ..u }, rest.skip(1))
    } else if rest[0] is Close && s.frames.len() > 0 {
        let top = u.frames.last();
        if top.op is Not && flen(top.kids) != 1 { None } else {
            exec(St { last: Some(Tok::Close), ..add(St { frames: u.frames.drop_last(), ..u }, Tree::Node(top.op, Box::new(top.kids))) }, rest.skip(1))
        }
    } else {
        None
    }
}

/// A member at `s`: the machine reads what the grammar reads.
pub proof fn lemma_pred(s: St, ts: Seq<Tok>)
    requires ready(s), ts.len() > 0, !(ts[0] is Close)
    ensures
        exec(s, ts) == (match g_pred(ts) { Some((t, rest)) => behind(s, t, rest), None => None }),
    decreases ts.len(), 0int
{
    reveal_with_fuel(exec, 4);
    if ts[0] is Key {
        let k = ts[0]->Key_0;
        if ts.len() > 1 && ts[1] is Equals {
            assert(ts.skip(1)[0] == ts[1]);
            assert(ts.skip(1).skip(1) =~= ts.skip(2));
            if ts.len() > 2 {
                assert(ts.skip(2)[0] == ts[2]);
                assert(ts.skip(2).skip(1) =~= ts.skip(3));
                if ts[2] is Value {
                    lemma_leaf(s, k, Some(ts[2]->Value_0), ts.skip(3));
                }
            }
        } else {
            lemma_leaf(s, k, None, ts.skip(1));
        }
    } else if func_of(ts[0]) is Some {
        let op = func_of(ts[0])->0;
        let s1 = step(s, ts[0])->0;
        if ts.len() > 1 {
            assert(ts.skip(1)[0] == ts[1]);
            assert(ts.skip(1).skip(1) =~= ts.skip(2));
            if ts[1] is Open {
                let s2 = step(s1, ts[1])->0;
                lemma_list(s2, ts.skip(2));
                assert(s2.frames.drop_last() =~= s.frames);
                lemma_list_shorter(ts.skip(2), Forest::Nil);
                match g_list(ts.skip(2), Forest::Nil) {
                    Some((f, rest)) => {
                        if !(op is Not && flen(f) != 1) {
                            lemma_node(s, Tree::Node(op, Box::new(f)), rest);
                        }
                    }
                    None => {}
                }
            }
        }
    }
}

/// Where a leaf was read.
pub proof fn lemma_leaf(s: St, k: Seq<char>, v: Option<Seq<char>>, rest: Seq<Tok>)
    requires ready(s), v is None && rest.len() > 0 ==> !(rest[0] is Equals)
    ensures
        exec(after_leaf(s, k, v), rest) == (match classify(k, v) { Some(p) => behind(s, Tree::Leaf(p), rest), None => None }),
{
    reveal_with_fuel(exec, 2);
    let u = after_leaf(s, k, v);
    match classify(k, v) {
        Some(p) => {
            let w = St { key: None, val: None, ..add(u, Tree::Leaf(p)) };
            assert(flush(u) == Some(w));
            let x = add(s, Tree::Leaf(p));
            assert(w == St { last: u.last, ..x });
        }
        None => {}
    }
}

/// Where the closing parenthesis of a function was read.
pub proof fn lemma_node(s: St, t: Tree, rest: Seq<Tok>)
    requires ready(s), t is Node
    ensures
        exec(St { last: Some(Tok::Close), ..add(s, t) }, rest) == behind(s, t, rest),
{
    reveal_with_fuel(exec, 2);
}

/// Inside of a list.
pub proof fn lemma_list(s: St, ts: Seq<Tok>)
    requires ready(s), s.frames.len() > 0, s.last is Some
    ensures
        exec(s, ts) == (match g_list(ts, s.frames.last().kids) {
            Some((f, rest)) => {
                let op = s.frames.last().op;
                if op is Not && flen(f) != 1 { None } else {
                    exec(St { last: Some(Tok::Close), ..add(St { frames: s.frames.drop_last(), ..s }, Tree::Node(op, Box::new(f))) }, rest)
                }
            }
            None => None,
        }),
    decreases ts.len(), 1int
{
    reveal_with_fuel(exec, 2);
    if ts.len() > 0 && !(ts[0] is Close) {
        lemma_pred(s, ts);
        lemma_pred_shorter(ts);
        match g_pred(ts) {
            Some((t, rest)) => {
                let u = add(s, t);
                assert(u.frames.drop_last() =~= s.frames.drop_last());
                if rest.len() > 0 && rest[0] is Comma {
                    let x = St { last: Some(Tok::Comma), ..u };
                    lemma_list(x, rest.skip(1));
                    assert(x.frames.drop_last() =~= s.frames.drop_last());
                }
            }
            None => {}
        }
    }
}

/// The machine accepts exactly the grammar, and builds the tree of the grammar.
pub proof fn theorem_grammar(ts: Seq<Tok>)
    ensures exec(init(), ts) == g_top(ts)
{
    reveal_with_fuel(exec, 2);
    reveal_with_fuel(flen, 3);
    let s = init();
    if ts.len() > 0 && !(ts[0] is Close) {
        lemma_pred(s, ts);
        match g_pred(ts) {
            Some((t, rest)) => {
                let u = add(s, t);
                assert(u.roots == snoc(Forest::Nil, t));
                if rest.len() > 0 && rest[0] is Comma {
                    let x = St { last: Some(Tok::Comma), ..u };
                    let r = rest.skip(1);
                    if r.len() > 0 {
                        match step(x, r[0]) {
                            Some(y) => {
                                lemma_two_roots(y, r.skip(1));
                            }
                            None => {}
                        }
                    }
                }
            }
            None => {}
        }
    }
}

/// On texts.
pub proof fn theorem_parse(text: Seq<char>)
    ensures exec_text(init(), strip(text)) == denotes(text)
{
    lemma_exec_text(init(), strip(text));
    match toks(strip(text)) { Some(ts) => theorem_grammar(ts), None => {} }
}

}
}

pub mod whole {
// What parsing and evaluation together give.
use vstd::prelude::*;
use super::*;
use crate::treespec::meaning::*;
use crate::treespec::listing::*;
verus! {

/// With the postconditions of `parse` (`code`) and `eval` (`asked`, `answered`, `r`):
/// the result is the truth value of the text, if the caller's function answers by the valuation `v`.
pub proof fn theorem_value3(text: Seq<char>, code: Seq<SNode>, asked: Seq<SPred>, answered: Seq<Option<bool>>, r: Option<bool>, v: spec_fn(SPred) -> Option<bool>)
    requires
        denotes(text) is Some,
        code == post(denotes(text)->0),
        asked == preds(code),
        answered == answers(asked, v),
        seq![r] == run(code, answered),
    ensures r == truth3(denotes(text)->0, v)
{
    lemma_denotes_wf(text);
    theorem_truth3(denotes(text)->0, v);
    assert(seq![r][0] == seq![truth3(denotes(text)->0, v)][0]);
}

pub proof fn theorem_value2(text: Seq<char>, code: Seq<SNode>, asked: Seq<SPred>, answered: Seq<bool>, r: bool, v: spec_fn(SPred) -> bool)
    requires
        denotes(text) is Some,
        code == post(denotes(text)->0),
        asked == preds(code),
        answered == answers(asked, v),
        seq![r] == run(code, answered),
    ensures r == truth2(denotes(text)->0, v)
{
    lemma_denotes_wf(text);
    theorem_truth2(denotes(text)->0, v);
    assert(seq![r][0] == seq![truth2(denotes(text)->0, v)][0]);
}

/// The same in any lawful logic of the caller.
pub proof fn theorem_value<T: SpecLogic>(text: Seq<char>, code: Seq<SNode>, asked: Seq<SPred>, answered: Seq<T>, r: T, v: spec_fn(SPred) -> T)
    requires
        crate::treespec::laws::lawful::<T>(),
        denotes(text) is Some,
        code == post(denotes(text)->0),
        asked == preds(code),
        answered == answers(asked, v),
        seq![r] == run(code, answered),
    ensures r == crate::treespec::laws::value(denotes(text)->0, v)
{
    lemma_denotes_wf(text);
    crate::treespec::laws::theorem_value(denotes(text)->0, v);
    assert(seq![r][0] == seq![crate::treespec::laws::value(denotes(text)->0, v)][0]);
}

/// A definite answer with unknown options is the answer for every completion.
pub proof fn theorem_sound(text: Seq<char>, v: spec_fn(SPred) -> Option<bool>, w: spec_fn(SPred) -> bool)
    requires denotes(text) is Some, completes(w, v)
    ensures
        truth3(denotes(text)->0, v) is Some ==> truth3(denotes(text)->0, v) == Some(truth2(denotes(text)->0, w)),
        (forall|p: SPred| #[trigger] v(p) is Some) ==> truth3(denotes(text)->0, v) is Some,
{
    lemma_denotes_wf(text);
    theorem_unknown(denotes(text)->0, v, w);
}

/// What is listed and asked is what is written, each occurrence once.
pub proof fn theorem_listed(text: Seq<char>, code: Seq<SNode>)
    requires denotes(text) is Some, code == post(denotes(text)->0)
    ensures preds(code).to_multiset() == leaves(denotes(text)->0).to_multiset()
{
    theorem_listing(denotes(text)->0);
}

/// `cfg(` text `)` is the same as the text.
pub proof fn theorem_wrapped(s: Seq<char>)
    requires strip(s) == s
    ensures
        strip(seq!['c', 'f', 'g', '('] + s + seq![')']) == s,
        denotes(seq!['c', 'f', 'g', '('] + s + seq![')']) == denotes(s),
{
    let p = seq!['c', 'f', 'g', '('];
    let w = p + s + seq![')'];
    assert(p.is_prefix_of(w)) by { assert(w.subrange(0, 4) =~= p); }
    assert(w.last() == ')');
    assert(w.subrange(4, w.len() - 1) =~= s);
}

}
}
