// What cfg expressions are: predicates, trees, their code and their value.
use vstd::prelude::*;

verus! {

/// The options of a target that are named and given a text.
pub enum Field { Abi, Arch, Env, Family, Os, Panic, Vendor }

/// A predicate, as the caller sees it.
pub enum SPred {
    Field(Field, Seq<char>),
    /// big?
    Endian(bool),
    /// `None` stands for pointers
    HasAtomic(Option<nat>),
    PointerWidth(nat),
    Test,
    DebugAssertions,
    ProcMacro,
    Feature(Seq<char>),
    TargetFeature(Seq<char>),
    Flag(Seq<char>),
    KeyValue(Seq<char>, Seq<char>),
}

pub enum Op { All, Any, Not }

/// The code an expression is kept in.
pub enum SNode {
    Fn(Op, nat),
    Pred(SPred),
}

/// An expression as it is written.
pub enum Tree {
    Leaf(SPred),
    Node(Op, Box<Forest>),
}

/// A list of expressions as it is written.
pub enum Forest {
    Nil,
    Snoc(Box<Forest>, Box<Tree>),
}

pub open spec fn flen(f: Forest) -> nat
    decreases f
{
    match f {
        Forest::Nil => 0,
        Forest::Snoc(g, _) => flen(*g) + 1,
    }
}

/// `not` has one operand, everywhere.
pub open spec fn wf_tree(t: Tree) -> bool
    decreases t
{
    match t {
        Tree::Leaf(_) => true,
        Tree::Node(op, f) => wf_forest(*f) && (op is Not ==> flen(*f) == 1),
    }
}

pub open spec fn wf_forest(f: Forest) -> bool
    decreases f
{
    match f {
        Forest::Nil => true,
        Forest::Snoc(g, t) => wf_forest(*g) && wf_tree(*t),
    }
}

// ---- the options written

/// The options in the order in which they are written.
pub open spec fn leaves(t: Tree) -> Seq<SPred>
    decreases t
{
    match t {
        Tree::Leaf(p) => seq![p],
        Tree::Node(_, f) => leaves_f(*f),
    }
}

pub open spec fn leaves_f(f: Forest) -> Seq<SPred>
    decreases f
{
    match f {
        Forest::Nil => Seq::empty(),
        Forest::Snoc(g, t) => leaves_f(*g) + leaves(*t),
    }
}

// ---- the code: the functions among the members first, then the plain options

pub open spec fn post(t: Tree) -> Seq<SNode>
    decreases t
{
    match t {
        Tree::Leaf(p) => seq![SNode::Pred(p)],
        Tree::Node(op, f) => (fcode(*f) + lcode(*f)).push(SNode::Fn(op, flen(*f))),
    }
}

/// The code of the members that are functions.
pub open spec fn fcode(f: Forest) -> Seq<SNode>
    decreases f
{
    match f {
        Forest::Nil => Seq::empty(),
        Forest::Snoc(g, t) => match *t {
            Tree::Leaf(_) => fcode(*g),
            Tree::Node(_, _) => fcode(*g) + post(*t),
        },
    }
}

/// The code of the members that are plain options.
pub open spec fn lcode(f: Forest) -> Seq<SNode>
    decreases f
{
    match f {
        Forest::Nil => Seq::empty(),
        Forest::Snoc(g, t) => match *t {
            Tree::Leaf(p) => lcode(*g).push(SNode::Pred(p)),
            Tree::Node(_, _) => lcode(*g),
        },
    }
}

/// The predicates of a code, in order.
pub open spec fn preds(n: Seq<SNode>) -> Seq<SPred>
    decreases n.len()
{
    if n.len() == 0 {
        Seq::empty()
    } else {
        match n.last() {
            SNode::Pred(p) => preds(n.drop_last()).push(p),
            SNode::Fn(_, _) => preds(n.drop_last()),
        }
    }
}

// ---- evaluation of code

/// The connectives of a logic.
pub trait SpecLogic: Sized {
    spec fn s_top() -> Self;
    spec fn s_bottom() -> Self;
    spec fn s_and(self, o: Self) -> Self;
    spec fn s_or(self, o: Self) -> Self;
    spec fn s_not(self) -> Self;
}

impl SpecLogic for bool {
    open spec fn s_top() -> bool { true }
    open spec fn s_bottom() -> bool { false }
    open spec fn s_and(self, o: bool) -> bool { self && o }
    open spec fn s_or(self, o: bool) -> bool { self || o }
    open spec fn s_not(self) -> bool { !self }
}

/// Kleene's three-valued logic: `None` is unknown.
impl SpecLogic for Option<bool> {
    open spec fn s_top() -> Option<bool> { Some(true) }
    open spec fn s_bottom() -> Option<bool> { Some(false) }
    open spec fn s_and(self, o: Option<bool>) -> Option<bool> {
        if self == Some(false) || o == Some(false) { Some(false) }
        else if self == Some(true) && o == Some(true) { Some(true) }
        else { None }
    }
    open spec fn s_or(self, o: Option<bool>) -> Option<bool> {
        if self == Some(true) || o == Some(true) { Some(true) }
        else if self == Some(false) && o == Some(false) { Some(false) }
        else { None }
    }
    open spec fn s_not(self) -> Option<bool> {
        match self { Some(b) => Some(!b), None => None }
    }
}

/// The last `k` of `s` combined by `and`, the last one first.
pub open spec fn fold_and<T: SpecLogic>(s: Seq<T>, k: nat) -> T
    decreases k
{
    if k == 0 { T::s_top() } else { fold_and(s, (k - 1) as nat).s_and(s[s.len() - k]) }
}

pub open spec fn fold_or<T: SpecLogic>(s: Seq<T>, k: nat) -> T
    decreases k
{
    if k == 0 { T::s_bottom() } else { fold_or(s, (k - 1) as nat).s_or(s[s.len() - k]) }
}

/// A function applied to the values on top of the stack `s`.
pub open spec fn apply<T: SpecLogic>(s: Seq<T>, op: Op, k: nat) -> Seq<T> {
    match op {
        Op::All => s.take(s.len() - k).push(fold_and(s, k)),
        Op::Any => s.take(s.len() - k).push(fold_or(s, k)),
        Op::Not => s.drop_last().push(s.last().s_not()),
    }
}

/// The stack after running the code `n`, whose predicates were answered `ans`.
pub open spec fn run<T: SpecLogic>(n: Seq<SNode>, ans: Seq<T>) -> Seq<T>
    decreases n.len()
{
    if n.len() == 0 {
        Seq::empty()
    } else {
        match n.last() {
            SNode::Pred(_) => run(n.drop_last(), ans.drop_last()).push(ans.last()),
            SNode::Fn(op, k) => apply(run(n.drop_last(), ans), op, k),
        }
    }
}

/// Number of operands.
pub open spec fn takes(x: SNode) -> nat {
    match x {
        SNode::Pred(_) => 0,
        SNode::Fn(Op::Not, _) => 1,
        SNode::Fn(_, k) => k,
    }
}

/// Height of the stack after the code.
pub open spec fn height(n: Seq<SNode>) -> int
    decreases n.len()
{
    if n.len() == 0 { 0 } else { height(n.drop_last()) - takes(n.last()) + 1 }
}

/// Every function of the code finds its operands.
pub open spec fn runnable(n: Seq<SNode>) -> bool
    decreases n.len()
{
    if n.len() == 0 { true } else { runnable(n.drop_last()) && height(n.drop_last()) >= takes(n.last()) }
}

pub proof fn lemma_runnable_prefix(n: Seq<SNode>, i: int)
    requires runnable(n), 0 <= i <= n.len()
    ensures runnable(n.take(i)), height(n.take(i)) >= 0
    decreases n.len()
{
    if n.len() == 0 {
        assert(n.take(i) =~= n);
    } else if i == n.len() {
        assert(n.take(i) =~= n);
        lemma_runnable_prefix(n.drop_last(), n.len() - 1);
        assert(n.drop_last().take(n.len() - 1) =~= n.drop_last());
    } else {
        lemma_runnable_prefix(n.drop_last(), i);
        assert(n.drop_last().take(i) =~= n.take(i));
    }
}

/// The height is the number of values the evaluation has.
pub proof fn lemma_run_len<T: SpecLogic>(n: Seq<SNode>, ans: Seq<T>)
    requires runnable(n), ans.len() == preds(n).len()
    ensures run(n, ans).len() == height(n), height(n) >= 0
    decreases n.len()
{
    if n.len() > 0 {
        match n.last() {
            SNode::Pred(_) => { lemma_run_len(n.drop_last(), ans.drop_last()); }
            SNode::Fn(op, k) => { lemma_run_len(n.drop_last(), ans); }
        }
    }
}

pub proof fn lemma_preds_prefix(n: Seq<SNode>, i: int)
    requires 0 <= i <= n.len()
    ensures preds(n.take(i)).is_prefix_of(preds(n)), preds(n.take(i)).len() <= preds(n).len()
    decreases n.len()
{
    if i == n.len() {
        assert(n.take(i) =~= n);
    } else {
        lemma_preds_prefix(n.drop_last(), i);
        assert(n.drop_last().take(i) =~= n.take(i));
    }
}

pub proof fn lemma_preds_concat(a: Seq<SNode>, b: Seq<SNode>)
    ensures preds(a + b) == preds(a) + preds(b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(preds(a) + preds(b) =~= preds(a));
    } else {
        lemma_preds_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(preds(a + b) =~= preds(a) + preds(b));
    }
}

// ---- the code of a tree runs, and gives the value of the tree

/// The value in any logic, the members combined in the order of the code.
pub open spec fn val<T: SpecLogic>(t: Tree, v: spec_fn(SPred) -> T) -> T
    decreases t
{
    match t {
        Tree::Leaf(p) => v(p),
        Tree::Node(op, f) => {
            let s = fvals(*f, v) + lvals(*f, v);
            match op {
                Op::All => fold_and(s, s.len()),
                Op::Any => fold_or(s, s.len()),
                Op::Not => s.last().s_not(),
            }
        }
    }
}

pub open spec fn fvals<T: SpecLogic>(f: Forest, v: spec_fn(SPred) -> T) -> Seq<T>
    decreases f
{
    match f {
        Forest::Nil => Seq::empty(),
        Forest::Snoc(g, t) => match *t {
            Tree::Leaf(_) => fvals(*g, v),
            Tree::Node(_, _) => fvals(*g, v).push(val(*t, v)),
        },
    }
}

pub open spec fn lvals<T: SpecLogic>(f: Forest, v: spec_fn(SPred) -> T) -> Seq<T>
    decreases f
{
    match f {
        Forest::Nil => Seq::empty(),
        Forest::Snoc(g, t) => match *t {
            Tree::Leaf(_) => lvals(*g, v).push(val(*t, v)),
            Tree::Node(_, _) => lvals(*g, v),
        },
    }
}

pub open spec fn answers<T>(p: Seq<SPred>, v: spec_fn(SPred) -> T) -> Seq<T> {
    p.map_values(v)
}

pub proof fn lemma_answers_push<T>(p: Seq<SPred>, x: SPred, v: spec_fn(SPred) -> T)
    ensures
        answers(p.push(x), v) == answers(p, v).push(v(x)),
        answers(p.push(x), v).drop_last() == answers(p, v),
        answers(p.push(x), v).last() == v(x),
{
    assert(answers(p.push(x), v) =~= answers(p, v).push(v(x)));
    assert(answers(p.push(x), v).drop_last() =~= answers(p, v));
}

/// Running code with the answers that a valuation gives.
pub open spec fn runv<T: SpecLogic>(n: Seq<SNode>, v: spec_fn(SPred) -> T) -> Seq<T> {
    run(n, answers(preds(n), v))
}

pub proof fn lemma_runv_push<T: SpecLogic>(n: Seq<SNode>, x: SNode, v: spec_fn(SPred) -> T)
    ensures
        runv(n.push(x), v) == (match x {
            SNode::Pred(p) => runv(n, v).push(v(p)),
            SNode::Fn(op, k) => apply(runv(n, v), op, k),
        }),
        runnable(n.push(x)) == (runnable(n) && height(n) >= takes(x)),
        height(n.push(x)) == height(n) - takes(x) + 1,
{
    assert(n.push(x).drop_last() =~= n);
    match x {
        SNode::Pred(p) => { lemma_answers_push(preds(n), p, v); }
        _ => {}
    }
}

pub proof fn lemma_fold_suffix<T: SpecLogic>(a: Seq<T>, b: Seq<T>, k: nat)
    requires k <= b.len()
    ensures fold_and(a + b, k) == fold_and(b, k), fold_or(a + b, k) == fold_or(b, k)
    decreases k
{
    if k > 0 {
        lemma_fold_suffix(a, b, (k - 1) as nat);
    }
}

pub proof fn lemma_vals_len<T: SpecLogic>(f: Forest, v: spec_fn(SPred) -> T)
    ensures fvals(f, v).len() + lvals(f, v).len() == flen(f)
    decreases f
{
    match f {
        Forest::Nil => {}
        Forest::Snoc(g, t) => { lemma_vals_len(*g, v); }
    }
}

/// After code that runs, the code of a tree runs and leaves the value of the tree.
pub proof fn lemma_run_post<T: SpecLogic>(n: Seq<SNode>, t: Tree, v: spec_fn(SPred) -> T)
    requires runnable(n), wf_tree(t)
    ensures
        runnable(n + post(t)),
        height(n + post(t)) == height(n) + 1,
        runv(n + post(t), v) == runv(n, v).push(val(t, v)),
    decreases t
{
    match t {
        Tree::Leaf(p) => {
            assert(n + post(t) =~= n.push(SNode::Pred(p)));
            lemma_runv_push(n, SNode::Pred(p), v);
            lemma_runnable_prefix(n, n.len() as int);
            assert(n.take(n.len() as int) =~= n);
        }
        Tree::Node(op, f) => {
            lemma_run_fcode(n, *f, v);
            lemma_run_lcode(n + fcode(*f), *f, v);
            lemma_vals_len(*f, v);
            let m = n + fcode(*f) + lcode(*f);
            let k = flen(*f);
            assert(n + post(t) =~= m.push(SNode::Fn(op, k)));
            lemma_runv_push(m, SNode::Fn(op, k), v);
            let s = fvals(*f, v) + lvals(*f, v);
            let st = runv(n, v);
            assert(runv(m, v) =~= st + s);
            lemma_fold_suffix(st, s, k);
            lemma_runnable_prefix(n, n.len() as int);
            assert(n.take(n.len() as int) =~= n);
            assert((st + s).take((st + s).len() - k) =~= st);
            if op is Not {
                assert(s.len() == 1);
                assert((st + s).drop_last() =~= st);
            }
        }
    }
}

pub proof fn lemma_run_fcode<T: SpecLogic>(n: Seq<SNode>, f: Forest, v: spec_fn(SPred) -> T)
    requires runnable(n), wf_forest(f)
    ensures
        runnable(n + fcode(f)),
        height(n + fcode(f)) == height(n) + fvals(f, v).len(),
        runv(n + fcode(f), v) == runv(n, v) + fvals(f, v),
    decreases f
{
    match f {
        Forest::Nil => {
            assert(n + fcode(f) =~= n);
            assert(runv(n, v) + fvals(f, v) =~= runv(n, v));
        }
        Forest::Snoc(g, t) => {
            lemma_run_fcode(n, *g, v);
            match *t {
                Tree::Leaf(_) => {}
                Tree::Node(_, _) => {
                    lemma_run_post(n + fcode(*g), *t, v);
                    assert(n + fcode(f) =~= n + fcode(*g) + post(*t));
                    assert(runv(n, v) + fvals(f, v) =~= (runv(n, v) + fvals(*g, v)).push(val(*t, v)));
                }
            }
        }
    }
}

pub proof fn lemma_run_lcode<T: SpecLogic>(n: Seq<SNode>, f: Forest, v: spec_fn(SPred) -> T)
    requires runnable(n), wf_forest(f)
    ensures
        runnable(n + lcode(f)),
        height(n + lcode(f)) == height(n) + lvals(f, v).len(),
        runv(n + lcode(f), v) == runv(n, v) + lvals(f, v),
    decreases f
{
    match f {
        Forest::Nil => {
            assert(n + lcode(f) =~= n);
            assert(runv(n, v) + lvals(f, v) =~= runv(n, v));
        }
        Forest::Snoc(g, t) => {
            lemma_run_lcode(n, *g, v);
            match *t {
                Tree::Leaf(p) => {
                    let m = n + lcode(*g);
                    lemma_runv_push(m, SNode::Pred(p), v);
                    lemma_runnable_prefix(m, m.len() as int);
                    assert(m.take(m.len() as int) =~= m);
                    assert(n + lcode(f) =~= m.push(SNode::Pred(p)));
                    assert(val(*t, v) == v(p));
                    assert(lvals(f, v) == lvals(*g, v).push(v(p)));
                    assert(runv(n, v) + lvals(f, v) =~= (runv(n, v) + lvals(*g, v)).push(v(p)));
                }
                Tree::Node(_, _) => {}
            }
        }
    }
}

/// The code of a tree runs and gives exactly one value: the tree's.
pub proof fn theorem_code<T: SpecLogic>(t: Tree, v: spec_fn(SPred) -> T)
    requires wf_tree(t)
    ensures
        runnable(post(t)),
        height(post(t)) == 1,
        runv(post(t), v) == seq![val(t, v)],
{
    let e = Seq::<SNode>::empty();
    lemma_run_post(e, t, v);
    assert(e + post(t) =~= post(t));
    assert(runv(e, v).push(val(t, v)) =~= seq![val(t, v)]);
}

}

pub mod meaning {
use vstd::prelude::*;
use super::*;
verus! {

// ---- the truth value of what is written

/// `all` is true if every member is true and false if one is false; `any` is true if one is true
/// and false if every one is false; `not` turns the value round. Everything else is unknown.
pub open spec fn truth3(t: Tree, v: spec_fn(SPred) -> Option<bool>) -> Option<bool>
    decreases t
{
    match t {
        Tree::Leaf(p) => v(p),
        Tree::Node(Op::All, f) =>
            if some3(*f, v, Some(false)) { Some(false) } else if every3(*f, v, Some(true)) { Some(true) } else { None },
        Tree::Node(Op::Any, f) =>
            if some3(*f, v, Some(true)) { Some(true) } else if every3(*f, v, Some(false)) { Some(false) } else { None },
        Tree::Node(Op::Not, f) =>
            if every3(*f, v, Some(true)) { Some(false) } else if every3(*f, v, Some(false)) { Some(true) } else { None },
    }
}

/// Some member has the value `x`.
pub open spec fn some3(f: Forest, v: spec_fn(SPred) -> Option<bool>, x: Option<bool>) -> bool
    decreases f
{
    match f {
        Forest::Nil => false,
        Forest::Snoc(g, t) => some3(*g, v, x) || truth3(*t, v) == x,
    }
}

/// Every member has the value `x`.
pub open spec fn every3(f: Forest, v: spec_fn(SPred) -> Option<bool>, x: Option<bool>) -> bool
    decreases f
{
    match f {
        Forest::Nil => true,
        Forest::Snoc(g, t) => every3(*g, v, x) && truth3(*t, v) == x,
    }
}

/// The two-valued truth value.
pub open spec fn truth2(t: Tree, v: spec_fn(SPred) -> bool) -> bool
    decreases t
{
    match t {
        Tree::Leaf(p) => v(p),
        Tree::Node(Op::All, f) => every2(*f, v, true),
        Tree::Node(Op::Any, f) => some2(*f, v, true),
        Tree::Node(Op::Not, f) => every2(*f, v, false),
    }
}

pub open spec fn some2(f: Forest, v: spec_fn(SPred) -> bool, x: bool) -> bool
    decreases f
{
    match f {
        Forest::Nil => false,
        Forest::Snoc(g, t) => some2(*g, v, x) || truth2(*t, v) == x,
    }
}

pub open spec fn every2(f: Forest, v: spec_fn(SPred) -> bool, x: bool) -> bool
    decreases f
{
    match f {
        Forest::Nil => true,
        Forest::Snoc(g, t) => every2(*g, v, x) && truth2(*t, v) == x,
    }
}

// ---- folds are quantifiers

pub open spec fn has<T>(s: Seq<T>, x: T) -> bool {
    exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x
}

pub open spec fn only<T>(s: Seq<T>, x: T) -> bool {
    forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == x
}

pub proof fn lemma_has_push<T>(s: Seq<T>, y: T, x: T)
    ensures
        has(s.push(y), x) == (has(s, x) || y == x),
        only(s.push(y), x) == (only(s, x) && y == x),
{
    let p = s.push(y);
    assert(p[s.len() as int] == y);
    if has(s, x) {
        let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x;
        assert(p[i] == x);
    }
    if only(p, x) {
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] == x by { assert(p[i] == x); }
    }
}

pub proof fn lemma_has_concat<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures
        has(a + b, x) == (has(a, x) || has(b, x)),
        only(a + b, x) == (only(a, x) && only(b, x)),
{
    let p = a + b;
    if has(a, x) {
        let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == x;
        assert(p[i] == x);
    }
    if has(b, x) {
        let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i] == x;
        assert(p[a.len() + i] == x);
    }
    if only(p, x) {
        assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == x by { assert(p[i] == x); }
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == x by { assert(p[a.len() + i] == x); }
    }
}

/// A fold over the last `k` looks at these only.
pub proof fn lemma_fold3(s: Seq<Option<bool>>, k: nat)
    requires k <= s.len()
    ensures
        ({
            let u = s.skip(s.len() - k);
            &&& fold_and(s, k) == (if has(u, Some(false)) { Some(false) } else if only(u, Some(true)) { Some(true) } else { None })
            &&& fold_or(s, k) == (if has(u, Some(true)) { Some(true) } else if only(u, Some(false)) { Some(false) } else { None })
        }),
    decreases k
{
    let u = s.skip(s.len() - k);
    if k > 0 {
        lemma_fold3(s, (k - 1) as nat);
        let w = s.skip(s.len() - (k - 1));
        let x = s[s.len() - k];
        assert(u =~= seq![x] + w);
        lemma_has_concat(seq![x], w, Some(false));
        lemma_has_concat(seq![x], w, Some(true));
        assert(seq![x][0] == x);
        assert(has(seq![x], x));
        assert(only(seq![x], x));
    }
}

pub proof fn lemma_fold2(s: Seq<bool>, k: nat)
    requires k <= s.len()
    ensures
        ({
            let u = s.skip(s.len() - k);
            &&& fold_and(s, k) == only(u, true)
            &&& fold_or(s, k) == has(u, true)
        }),
    decreases k
{
    let u = s.skip(s.len() - k);
    if k > 0 {
        lemma_fold2(s, (k - 1) as nat);
        let w = s.skip(s.len() - (k - 1));
        let x = s[s.len() - k];
        assert(u =~= seq![x] + w);
        lemma_has_concat(seq![x], w, true);
        assert(seq![x][0] == x);
        assert(has(seq![x], x));
        assert(only(seq![x], x));
        assert(has(seq![x], true) ==> x);
        assert(only(seq![x], true) ==> x);
    }
}

pub proof fn lemma_val3(t: Tree, v: spec_fn(SPred) -> Option<bool>)
    requires wf_tree(t)
    ensures val(t, v) == truth3(t, v)
    decreases t
{
    match t {
        Tree::Leaf(p) => {}
        Tree::Node(op, f) => {
            lemma_vals3(*f, v, Some(true));
            lemma_vals3(*f, v, Some(false));
            lemma_vals_len(*f, v);
            let s = fvals(*f, v) + lvals(*f, v);
            lemma_fold3(s, s.len());
            assert(s.skip(0) =~= s);
            lemma_has_concat(fvals(*f, v), lvals(*f, v), Some(true));
            lemma_has_concat(fvals(*f, v), lvals(*f, v), Some(false));
            if op is Not {
                assert(s.len() == 1);
                assert(s[0] == s.last());
                assert(only(s, s[0]));
            }
        }
    }
}

pub proof fn lemma_vals3(f: Forest, v: spec_fn(SPred) -> Option<bool>, x: Option<bool>)
    requires wf_forest(f)
    ensures
        some3(f, v, x) == (has(fvals(f, v), x) || has(lvals(f, v), x)),
        every3(f, v, x) == (only(fvals(f, v), x) && only(lvals(f, v), x)),
    decreases f
{
    match f {
        Forest::Nil => {}
        Forest::Snoc(g, t) => {
            lemma_vals3(*g, v, x);
            lemma_val3(*t, v);
            lemma_has_push(fvals(*g, v), val(*t, v), x);
            lemma_has_push(lvals(*g, v), val(*t, v), x);
        }
    }
}

pub proof fn lemma_val2(t: Tree, v: spec_fn(SPred) -> bool)
    requires wf_tree(t)
    ensures val(t, v) == truth2(t, v)
    decreases t
{
    match t {
        Tree::Leaf(p) => {}
        Tree::Node(op, f) => {
            lemma_vals2(*f, v, true);
            lemma_vals2(*f, v, false);
            lemma_vals_len(*f, v);
            let s = fvals(*f, v) + lvals(*f, v);
            lemma_fold2(s, s.len());
            assert(s.skip(0) =~= s);
            lemma_has_concat(fvals(*f, v), lvals(*f, v), true);
            lemma_has_concat(fvals(*f, v), lvals(*f, v), false);
            if op is Not {
                assert(s.len() == 1);
                assert(s[0] == s.last());
                assert(only(s, s[0]));
            }
        }
    }
}

pub proof fn lemma_vals2(f: Forest, v: spec_fn(SPred) -> bool, x: bool)
    requires wf_forest(f)
    ensures
        some2(f, v, x) == (has(fvals(f, v), x) || has(lvals(f, v), x)),
        every2(f, v, x) == (only(fvals(f, v), x) && only(lvals(f, v), x)),
    decreases f
{
    match f {
        Forest::Nil => {}
        Forest::Snoc(g, t) => {
            lemma_vals2(*g, v, x);
            lemma_val2(*t, v);
            lemma_has_push(fvals(*g, v), val(*t, v), x);
            lemma_has_push(lvals(*g, v), val(*t, v), x);
        }
    }
}

/// Evaluating the code of a tree gives the truth value of the tree.
pub proof fn theorem_truth3(t: Tree, v: spec_fn(SPred) -> Option<bool>)
    requires wf_tree(t)
    ensures runv(post(t), v) == seq![truth3(t, v)]
{
    theorem_code(t, v);
    lemma_val3(t, v);
}

pub proof fn theorem_truth2(t: Tree, v: spec_fn(SPred) -> bool)
    requires wf_tree(t)
    ensures runv(post(t), v) == seq![truth2(t, v)]
{
    theorem_code(t, v);
    lemma_val2(t, v);
}

// ---- unknown is sound

/// `w` assigns truth values, also to what `v` leaves unknown.
pub open spec fn completes(w: spec_fn(SPred) -> bool, v: spec_fn(SPred) -> Option<bool>) -> bool {
    forall|p: SPred| #[trigger] v(p) is Some ==> v(p) == Some(w(p))
}

/// A definite answer survives every completion; with nothing unknown the two logics agree.
pub proof fn theorem_unknown(t: Tree, v: spec_fn(SPred) -> Option<bool>, w: spec_fn(SPred) -> bool)
    requires wf_tree(t), completes(w, v)
    ensures
        truth3(t, v) is Some ==> truth3(t, v) == Some(truth2(t, w)),
        (forall|p: SPred| #[trigger] v(p) is Some) ==> truth3(t, v) is Some,
    decreases t
{
    match t {
        Tree::Leaf(p) => {}
        Tree::Node(_, f) => {
            lemma_unknown(*f, v, w, true);
            lemma_unknown(*f, v, w, false);
            if flen(*f) == 1 { lemma_one(*f, v, w); }
        }
    }
}

pub proof fn lemma_one(f: Forest, v: spec_fn(SPred) -> Option<bool>, w: spec_fn(SPred) -> bool)
    requires flen(f) == 1
    ensures every2(f, w, true) == !every2(f, w, false)
{
    reveal_with_fuel(every2, 3);
    reveal_with_fuel(flen, 3);
    match f {
        Forest::Nil => {}
        Forest::Snoc(g, t) => { assert(flen(*g) == 0); assert(*g is Nil); }
    }
}

pub proof fn lemma_unknown(f: Forest, v: spec_fn(SPred) -> Option<bool>, w: spec_fn(SPred) -> bool, x: bool)
    requires wf_forest(f), completes(w, v)
    ensures
        some3(f, v, Some(x)) ==> some2(f, w, x),
        every3(f, v, Some(x)) ==> every2(f, w, x),
        some2(f, w, x) == !every2(f, w, !x),
        every2(f, w, x) == !some2(f, w, !x),
        (forall|p: SPred| #[trigger] v(p) is Some) ==> some3(f, v, Some(x)) || every3(f, v, Some(!x)),
    decreases f
{
    match f {
        Forest::Nil => {}
        Forest::Snoc(g, t) => {
            lemma_unknown(*g, v, w, x);
            theorem_unknown(*t, v, w);
        }
    }
}

/// The laws of the connectives.
pub proof fn theorem_kleene(a: Option<bool>, b: Option<bool>, c: Option<bool>)
    ensures
        a.s_and(b) == b.s_and(a),
        a.s_or(b) == b.s_or(a),
        a.s_and(b).s_and(c) == a.s_and(b.s_and(c)),
        a.s_or(b).s_or(c) == a.s_or(b.s_or(c)),
        a.s_and(<Option<bool> as SpecLogic>::s_top()) == a,
        a.s_or(<Option<bool> as SpecLogic>::s_bottom()) == a,
        a.s_and(b).s_not() == a.s_not().s_or(b.s_not()),
        a.s_or(b).s_not() == a.s_not().s_and(b.s_not()),
        a.s_not().s_not() == a,
        a.s_and(Some(false)) == Some(false),
        a.s_or(Some(true)) == Some(true),
        <Option<bool> as SpecLogic>::s_top() == Some(<bool as SpecLogic>::s_top()),
        <Option<bool> as SpecLogic>::s_bottom() == Some(<bool as SpecLogic>::s_bottom()),
        forall|x: bool, y: bool| #[trigger] Some(x).s_and(Some(y)) == Some(x.s_and(y)),
        forall|x: bool, y: bool| #[trigger] Some(x).s_or(Some(y)) == Some(x.s_or(y)),
        forall|x: bool| #[trigger] Some(x).s_not() == Some(x.s_not()),
{
    match a {
        Some(x) => { assert(x || !x); if x {} else {} }
        None => {}
    }
}

}
}

pub mod listing {
use vstd::prelude::*;
use super::*;
verus! {

pub proof fn lemma_ms_concat(a: Seq<SPred>, b: Seq<SPred>)
    ensures (a + b).to_multiset() == a.to_multiset().add(b.to_multiset())
{
    vstd::seq_lib::lemma_multiset_commutative(a, b);
}

/// The code lists exactly the options that are written, each occurrence once.
pub proof fn theorem_listing(t: Tree)
    ensures preds(post(t)).to_multiset() == leaves(t).to_multiset()
    decreases t
{
    match t {
        Tree::Leaf(p) => {
            assert(post(t).drop_last() =~= Seq::empty());
            assert(post(t).last() == SNode::Pred(p));
            reveal_with_fuel(preds, 3);
            assert(preds(post(t)) =~= seq![p]);
        }
        Tree::Node(op, f) => {
            lemma_listing(*f);
            let c = fcode(*f) + lcode(*f);
            assert(c.push(SNode::Fn(op, flen(*f))).drop_last() =~= c);
            lemma_preds_concat(fcode(*f), lcode(*f));
            lemma_ms_concat(preds(fcode(*f)), preds(lcode(*f)));
        }
    }
}

pub proof fn lemma_listing(f: Forest)
    ensures preds(fcode(f)).to_multiset().add(preds(lcode(f)).to_multiset()) =~= leaves_f(f).to_multiset()
    decreases f
{
    match f {
        Forest::Nil => {
            broadcast use vstd::seq_lib::group_to_multiset_ensures;
        }
        Forest::Snoc(g, t) => {
            lemma_listing(*g);
            theorem_listing(*t);
            lemma_ms_concat(leaves_f(*g), leaves(*t));
            match *t {
                Tree::Leaf(p) => {
                    assert(lcode(f).drop_last() =~= lcode(*g));
                    assert(preds(lcode(f)) =~= preds(lcode(*g)) + seq![p]);
                    lemma_ms_concat(preds(lcode(*g)), seq![p]);
                    assert(leaves(*t) =~= seq![p]);
                }
                Tree::Node(_, _) => {
                    lemma_preds_concat(fcode(*g), post(*t));
                    lemma_ms_concat(preds(fcode(*g)), preds(post(*t)));
                }
            }
        }
    }
}

}
}

pub mod laws {
// Any logic a caller defines.
use vstd::prelude::*;
use super::*;
verus! {

/// `and` and `or` are associative and commutative, with `top` and `bottom` as neutral elements.
pub open spec fn lawful<T: SpecLogic>() -> bool {
    &&& forall|a: T| #[trigger] a.s_and(T::s_top()) == a
    &&& forall|a: T, b: T| #[trigger] a.s_and(b) == b.s_and(a)
    &&& forall|a: T, b: T, c: T| #[trigger] a.s_and(b).s_and(c) == a.s_and(b.s_and(c))
    &&& forall|a: T| #[trigger] a.s_or(T::s_bottom()) == a
    &&& forall|a: T, b: T| #[trigger] a.s_or(b) == b.s_or(a)
    &&& forall|a: T, b: T, c: T| #[trigger] a.s_or(b).s_or(c) == a.s_or(b.s_or(c))
}

/// The value a tree denotes in the logic `T`: members are combined as they are written.
pub open spec fn value<T: SpecLogic>(t: Tree, v: spec_fn(SPred) -> T) -> T
    decreases t
{
    match t {
        Tree::Leaf(p) => v(p),
        Tree::Node(Op::All, f) => all_of(*f, v),
        Tree::Node(Op::Any, f) => any_of(*f, v),
        Tree::Node(Op::Not, f) => match *f {
            Forest::Snoc(_, x) => value(*x, v).s_not(),
            Forest::Nil => T::s_top(),
        },
    }
}

pub open spec fn all_of<T: SpecLogic>(f: Forest, v: spec_fn(SPred) -> T) -> T
    decreases f
{
    match f {
        Forest::Nil => T::s_top(),
        Forest::Snoc(g, x) => all_of(*g, v).s_and(value(*x, v)),
    }
}

pub open spec fn any_of<T: SpecLogic>(f: Forest, v: spec_fn(SPred) -> T) -> T
    decreases f
{
    match f {
        Forest::Nil => T::s_bottom(),
        Forest::Snoc(g, x) => any_of(*g, v).s_or(value(*x, v)),
    }
}

pub open spec fn conj<T: SpecLogic>(s: Seq<T>) -> T
    decreases s.len()
{
    if s.len() == 0 { T::s_top() } else { conj(s.drop_last()).s_and(s.last()) }
}

pub open spec fn disj<T: SpecLogic>(s: Seq<T>) -> T
    decreases s.len()
{
    if s.len() == 0 { T::s_bottom() } else { disj(s.drop_last()).s_or(s.last()) }
}

proof fn lemma_concat<T: SpecLogic>(a: Seq<T>, b: Seq<T>)
    requires lawful::<T>()
    ensures
        conj(a + b) == conj(a).s_and(conj(b)),
        disj(a + b) == disj(a).s_or(disj(b)),
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        let c = b.drop_last();
        let x = b.last();
        assert((a + b).drop_last() =~= a + c);
        assert((a + b).last() == x);
        lemma_concat(a, c);
        assert(conj(a).s_and(conj(c)).s_and(x) == conj(a).s_and(conj(c).s_and(x)));
        assert(disj(a).s_or(disj(c)).s_or(x) == disj(a).s_or(disj(c).s_or(x)));
    }
}

proof fn lemma_one<T: SpecLogic>(x: T)
    requires lawful::<T>()
    ensures conj(seq![x]) == x, disj(seq![x]) == x
{
    assert(seq![x].drop_last() =~= Seq::empty());
    assert(conj(seq![x].drop_last()) == T::s_top());
    assert(disj(seq![x].drop_last()) == T::s_bottom());
    assert(T::s_top().s_and(x) == x.s_and(T::s_top()));
    assert(T::s_bottom().s_or(x) == x.s_or(T::s_bottom()));
}

/// The order in which evaluation combines the members does not matter.
proof fn lemma_fold<T: SpecLogic>(s: Seq<T>, k: nat)
    requires lawful::<T>(), k <= s.len()
    ensures
        fold_and(s, k) == conj(s.skip(s.len() - k)),
        fold_or(s, k) == disj(s.skip(s.len() - k)),
    decreases k
{
    let r = s.skip(s.len() - k);
    if k > 0 {
        let q = s.skip(s.len() - (k - 1));
        let x = s[s.len() - k];
        lemma_fold(s, (k - 1) as nat);
        assert(r =~= seq![x] + q);
        lemma_concat(seq![x], q);
        lemma_one(x);
        assert(conj(q).s_and(x) == x.s_and(conj(q)));
        assert(disj(q).s_or(x) == x.s_or(disj(q)));
    }
}

proof fn lemma_swap<T: SpecLogic>(a: T, b: T, c: T)
    requires lawful::<T>()
    ensures
        a.s_and(b).s_and(c) == a.s_and(c).s_and(b),
        a.s_or(b).s_or(c) == a.s_or(c).s_or(b),
{
    assert(a.s_and(b).s_and(c) == a.s_and(b.s_and(c)));
    assert(b.s_and(c) == c.s_and(b));
    assert(a.s_and(c).s_and(b) == a.s_and(c.s_and(b)));
    assert(a.s_or(b).s_or(c) == a.s_or(b.s_or(c)));
    assert(b.s_or(c) == c.s_or(b));
    assert(a.s_or(c).s_or(b) == a.s_or(c.s_or(b)));
}

proof fn lemma_members<T: SpecLogic>(f: Forest, v: spec_fn(SPred) -> T)
    requires lawful::<T>(), wf_forest(f)
    ensures
        conj(fvals(f, v) + lvals(f, v)) == all_of(f, v),
        disj(fvals(f, v) + lvals(f, v)) == any_of(f, v),
    decreases f, 0int
{
    match f {
        Forest::Nil => { assert(fvals(f, v) + lvals(f, v) =~= Seq::empty()); }
        Forest::Snoc(g, t) => {
            let (a, b) = (fvals(*g, v), lvals(*g, v));
            let x = val(*t, v);
            lemma_members(*g, v);
            lemma_value(*t, v);
            match *t {
                Tree::Leaf(_) => {
                    assert(a + b.push(x) =~= (a + b).push(x));
                    assert((a + b).push(x).drop_last() =~= a + b);
                }
                Tree::Node(_, _) => {
                    lemma_concat(a, b);
                    lemma_concat(a.push(x), b);
                    assert(a.push(x).drop_last() =~= a);
                    lemma_swap(conj(a), x, conj(b));
                    lemma_swap(disj(a), x, disj(b));
                }
            }
        }
    }
}

proof fn lemma_value<T: SpecLogic>(t: Tree, v: spec_fn(SPred) -> T)
    requires lawful::<T>(), wf_tree(t)
    ensures val(t, v) == value(t, v)
    decreases t, 1int
{
    match t {
        Tree::Leaf(p) => {}
        Tree::Node(op, f) => {
            let s = fvals(*f, v) + lvals(*f, v);
            lemma_fold(s, s.len());
            assert(s.skip(0) =~= s);
            lemma_members(*f, v);
            lemma_vals_len(*f, v);
            if op is Not {
                match *f {
                    Forest::Snoc(g, x) => {
                        lemma_vals_len(*g, v);
                        lemma_value(*x, v);
                        assert(s =~= seq![val(*x, v)]);
                    }
                    Forest::Nil => {}
                }
            }
        }
    }
}

/// The code of a tree gives the value the tree denotes, in any lawful logic.
pub proof fn theorem_value<T: SpecLogic>(t: Tree, v: spec_fn(SPred) -> T)
    requires wf_tree(t), lawful::<T>()
    ensures runv(post(t), v) == seq![value(t, v)]
{
    theorem_code(t, v);
    lemma_value(t, v);
}

/// The two logics of the crate are lawful.
pub proof fn theorem_lawful()
    ensures lawful::<bool>(), lawful::<Option<bool>>()
{
    assert forall|a: Option<bool>| #[trigger] a.s_and(<Option<bool> as SpecLogic>::s_top()) == a by { match a { None => {} Some(b) => { if b {} else {} } } }
    assert forall|a: Option<bool>, b: Option<bool>, c: Option<bool>| #[trigger] a.s_and(b).s_and(c) == a.s_and(b.s_and(c)) by {}
    assert forall|a: Option<bool>| #[trigger] a.s_or(<Option<bool> as SpecLogic>::s_bottom()) == a by { match a { None => {} Some(b) => { if b {} else {} } } }
    assert forall|a: Option<bool>, b: Option<bool>, c: Option<bool>| #[trigger] a.s_or(b).s_or(c) == a.s_or(b.s_or(c)) by {}
}

}
}
