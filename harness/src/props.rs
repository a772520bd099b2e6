use crate::gen::{self, Dict, Rng};
use crate::oracle::{self, LexEnd, Op, SPred, Tok, Tree};
use crate::{real, targ};
use cfg_expr::expr::lexer::{Lexer, Token};
use cfg_expr::{Expression, ParseError};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Fail {
    pub kind: String,
    pub input: String,
    pub expected: String,
    pub got: String,
}

#[derive(Default)]
pub struct Res {
    pub evaluations: usize,
    pub nontrivial: usize,
    pub rule: String,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub exhaustive: bool,
}

/// Ok(true): the case was non-trivial for this property.
pub type Verdict = Result<bool, (String, String)>;

pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
        format!("panic: {}", m.unwrap_or_default())
    })
}

pub fn hash64(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn short(s: &str) -> String {
    if s.len() > 400 {
        let a: String = s.chars().take(150).collect();
        format!("{a}... ({} bytes)", s.len())
    } else {
        s.to_owned()
    }
}

fn err<T>(e: impl Into<String>, g: impl Into<String>) -> Result<T, (String, String)> {
    Err((e.into(), short(&g.into())))
}

fn parse(text: &str) -> Result<Result<Expression, ParseError>, (String, String)> {
    quiet(|| Expression::parse(text)).map_err(|p| ("parsing returns".into(), p))
}

fn has_fn(t: &Tree) -> bool {
    matches!(t, Tree::Node(..))
}

fn c01(text: &str) -> Verdict {
    let want = oracle::parse(text);
    match (&want, parse(text)?) {
        (Some(_), Err(e)) => err("accepted: the text is in the grammar", format!("rejected: {:?} at {:?}", e.reason, e.span)),
        (None, Ok(_)) => err("rejected: the text is not in the grammar", "accepted"),
        _ => Ok(text.len() > 3),
    }
}

fn valuation(seed: u64, three: bool, p: &SPred) -> Option<bool> {
    let h = hash64(&(seed, p));
    match seed % 8 {
        0 => Some(true),
        1 => Some(false),
        2 if three => None,
        _ if three && h % 3 == 0 => None,
        _ => Some((h >> 7) % 2 == 0),
    }
}

fn c02(text: &str) -> Verdict {
    let Ok(e) = parse(text)? else { return Ok(false) };
    let Some(tree) = oracle::parse(text) else {
        quiet(|| (e.eval(|_| true), e.eval(|_| Some(false)))).map_err(|p| ("evaluation of a parsed expression returns".to_string(), p))?;
        return Ok(false);
    };
    let rounds = if text.len() > 20_000 { 4 } else { 10 };
    for seed in 0..rounds {
        let w2 = tree.eval(&|p| valuation(seed, false, p)).unwrap();
        let w3 = tree.eval(&|p| valuation(seed, true, p));
        let (g2, g3) = quiet(|| {
            (
                e.eval(|p| valuation(seed, false, &real::pred(p)).unwrap()),
                e.eval(|p| valuation(seed, true, &real::pred(p))),
            )
        })
        .map_err(|p| ("evaluation returns".to_string(), p))?;
        let show = |three: bool| {
            let mut l = vec![];
            tree.leaves(&mut l);
            l.sort();
            l.dedup();
            l.truncate(8);
            l.iter().map(|p| format!("{p:?}={:?}", valuation(seed, three, p))).collect::<Vec<_>>().join(", ")
        };
        if w2 != g2 {
            return err(format!("{w2} with {}", show(false)), format!("{g2}"));
        }
        if w3 != g3 {
            return err(format!("{w3:?} with {}", show(true)), format!("{g3:?}"));
        }
    }
    histories(text, &e, &tree)?;
    Ok(has_fn(&tree))
}

/// What the caller's function does must not matter: it may evaluate on its own, and it may panic.
fn histories(text: &str, e: &Expression, tree: &Tree) -> Result<(), (String, String)> {
    if text.len() > 400 || hash64(&text) % 4 != 0 {
        return Ok(());
    }
    let want = |seed: u64| tree.eval(&|p| valuation(seed, true, p));
    let other = "any(all(foo, not(bar)), all(), not(any(unix, foo = \"x\")))";
    let (outer, inner, first) = quiet(|| {
        let mut inner = vec![];
        let mut first = vec![];
        let o = Expression::parse(other).ok();
        let outer = e.eval(|p| {
            if let Some(o) = &o {
                inner.push(o.eval(|q| Some(real::pred(q) != SPred::Flag("bar".into()))));
            }
            if first.len() < 6 {
                first.push(e.eval(|q| valuation(4, true, &real::pred(q))));
                first.push(Expression::parse(text).ok().and_then(|e| e.eval(|q| valuation(4, true, &real::pred(q)))));
            }
            valuation(5, true, &real::pred(p))
        });
        (outer, inner, first)
    })
    .map_err(|p| ("evaluation returns, also when the caller's function evaluates".to_string(), p))?;
    if outer != want(5) || inner.iter().any(|v| *v != Some(true)) || first.iter().any(|v| *v != want(4)) {
        return err(format!("{:?}, and {:?} from within the caller's function", want(5), want(4)), format!("{outer:?}, and {first:?} {inner:?} from within the caller's function"));
    }
    if hash64(&text) % 16 != 0 {
        return Ok(());
    }
    let mut leaves = vec![];
    tree.leaves(&mut leaves);
    for at in [1, leaves.len() / 2, leaves.len()] {
        let mut n = 0;
        let _ = quiet(|| {
            e.eval(|_| {
                n += 1;
                assert!(n != at);
                Some(n % 2 == 0)
            })
        });
        let got = quiet(|| e.eval(|p| valuation(5, true, &real::pred(p)))).map_err(|p| ("evaluation returns after the caller's function panicked in another".to_string(), p))?;
        if got != want(5) {
            return err(format!("{:?} after an evaluation in which the caller's function panicked at call {at}", want(5)), format!("{got:?}"));
        }
    }
    Ok(())
}

/// A logic that is not boolean: polynomials at a point, modulo a prime. Neither connective is idempotent,
/// none distributes over the negation, and the negation is no involution.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Poly(u64);
const PRIME: u128 = (1 << 61) - 1;
impl cfg_expr::expr::Logic for Poly {
    fn top() -> Self {
        Poly(0)
    }
    fn bottom() -> Self {
        Poly(1)
    }
    fn and(self, o: Self) -> Self {
        Poly(((self.0 as u128 + o.0 as u128) % PRIME) as u64)
    }
    fn or(self, o: Self) -> Self {
        Poly(((self.0 as u128 * o.0 as u128) % PRIME) as u64)
    }
    fn not(self) -> Self {
        Poly(((self.0 as u128 * 48271 + 11) % PRIME) as u64)
    }
}

/// Degrees of truth between 0 and 255.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Fuzzy(u8);
impl cfg_expr::expr::Logic for Fuzzy {
    fn top() -> Self {
        Fuzzy(255)
    }
    fn bottom() -> Self {
        Fuzzy(0)
    }
    fn and(self, o: Self) -> Self {
        Fuzzy(self.0.min(o.0))
    }
    fn or(self, o: Self) -> Self {
        Fuzzy(self.0.max(o.0))
    }
    fn not(self) -> Self {
        Fuzzy(255 - self.0)
    }
}

fn value<T: cfg_expr::expr::Logic>(t: &Tree, f: &dyn Fn(&SPred) -> T) -> T {
    match t {
        Tree::Leaf(p) => f(p),
        Tree::Node(Op::Not, v) => value(&v[0], f).not(),
        Tree::Node(Op::All, v) => v.iter().map(|t| value(t, f)).fold(T::top(), T::and),
        Tree::Node(Op::Any, v) => v.iter().map(|t| value(t, f)).fold(T::bottom(), T::or),
    }
}

fn c18(text: &str) -> Verdict {
    let Ok(e) = parse(text)? else { return Ok(false) };
    let Some(tree) = oracle::parse(text) else { return Ok(false) };
    let h = |p: &SPred, seed: u64| hash64(&(seed, p));
    for seed in 0..3 {
        let (wp, wf) = (value(&tree, &|p| Poly(h(p, seed) >> 4)), value(&tree, &|p| Fuzzy(h(p, seed) as u8)));
        let (gp, gf) = quiet(|| (e.eval(|p| Poly(h(&real::pred(p), seed) >> 4)), e.eval(|p| Fuzzy(h(&real::pred(p), seed) as u8))))
            .map_err(|p| ("evaluation returns".to_string(), p))?;
        if wp != gp {
            return err(format!("{wp:?} in a logic of polynomials, with the options hashed ({seed})"), format!("{gp:?}"));
        }
        if text.len() < 2000 && hash64(&text) % 4 == 0 {
            let within = quiet(|| {
                let o = Expression::parse("all(foo, not(bar), any(unix))").unwrap();
                e.eval(|p| {
                    o.eval(|q| Poly(h(&real::pred(q), seed)));
                    Poly(h(&real::pred(p), seed) >> 4)
                })
            })
            .map_err(|p| ("evaluation returns, also when the caller's function evaluates".to_string(), p))?;
            if wp != within {
                return err(format!("{wp:?} when the caller's function evaluates another expression"), format!("{within:?}"));
            }
        }
        if wf != gf {
            return err(format!("{wf:?} in a fuzzy logic, with the options hashed ({seed})"), format!("{gf:?}"));
        }
    }
    Ok(has_fn(&tree))
}

fn c03(text: &str) -> Verdict {
    let Ok(e) = parse(text)? else { return Ok(false) };
    let Some(tree) = oracle::parse(text) else { return Ok(false) };
    let mut want = vec![];
    tree.leaves(&mut want);
    want.sort();
    let (list, t, f, u) = quiet(|| {
        let list: Vec<SPred> = e.predicates().map(|p| real::pred(&p)).collect();
        let ask3 = |v: Option<bool>| {
            let mut asked = vec![];
            e.eval(|p| {
                asked.push(real::pred(p));
                v
            });
            asked
        };
        let mut asked = vec![];
        e.eval(|p| {
            asked.push(real::pred(p));
            asked.len() % 2 == 0
        });
        (list, ask3(Some(true)), asked, ask3(Some(false)))
    })
    .map_err(|p| ("listing and evaluation return".to_string(), p))?;
    for (how, asked) in [("all true", &t), ("alternating", &f), ("all false", &u)] {
        if *asked != list {
            return err(
                format!("evaluation ({how}) asks for exactly the listed options in order: {}", short(&format!("{list:?}"))),
                format!("{asked:?}"),
            );
        }
    }
    if text.len() < 400 {
        let n = list.len();
        let k = n / 2;
        let ways = quiet(|| {
            let all = || e.predicates();
            let one = |p: Option<cfg_expr::Predicate<'_>>| p.map(|p| real::pred(&p));
            let (lo, hi) = all().size_hint();
            let mut it = e.predicates();
            let mut stepped = vec![];
            while let Some(p) = it.next() {
                stepped.push(real::pred(&p));
            }
            vec![
                ("count", all().count() == n),
                ("size_hint", lo <= n && hi.is_none_or(|h| h >= n)),
                ("last", one(all().last()) == list.last().cloned()),
                ("nth", one(all().nth(k)) == list.get(k).cloned() && one(all().nth(n)).is_none()),
                ("next", stepped == list),
                ("skip", all().skip(k).map(|p| real::pred(&p)).collect::<Vec<_>>() == list[k..]),
                ("fold", all().fold(0, |k, _| k + 1) == n),
                ("a second time", all().map(|p| real::pred(&p)).collect::<Vec<_>>() == list),
            ]
        })
        .map_err(|p| ("listing returns".to_string(), p))?;
        if let Some((how, _)) = ways.iter().find(|w| !w.1) {
            return err(format!("the listing read with `{how}` is {}", short(&format!("{list:?}"))), "it differs");
        }
    }
    let mut sorted = list;
    sorted.sort();
    if sorted != want {
        return err(format!("the options of the text: {}", short(&format!("{want:?}"))), format!("{sorted:?}"));
    }
    Ok(want.len() > 1)
}

fn c04(text: &str) -> Verdict {
    let Ok(e) = parse(text)? else { return Ok(false) };
    let mut nt = false;
    for seed in 3..9u64 {
        let part = |p: &SPred| if hash64(&(seed * 77, p)) % 2 == 0 { None } else { valuation(seed + 8, false, p) };
        let r3 = quiet(|| e.eval(|p| part(&real::pred(p)))).map_err(|p| ("evaluation returns".to_string(), p))?;
        for c in 0..4u64 {
            let full = |p: &SPred| part(p).unwrap_or_else(|| valuation(c * 3 + seed, false, p).unwrap());
            let r2 = quiet(|| e.eval(|p| full(&real::pred(p)))).map_err(|p| ("evaluation returns".to_string(), p))?;
            let r3t = quiet(|| e.eval(|p| Some(full(&real::pred(p))))).map_err(|p| ("evaluation returns".to_string(), p))?;
            if r3t != Some(r2) {
                return err(format!("two-valued {r2} is also the three-valued answer with nothing unknown"), format!("{r3t:?}"));
            }
            if let Some(b) = r3 {
                nt = true;
                if b != r2 {
                    return err(
                        format!("{b}, the definite answer with some options unknown, for every completion (valuation {seed}/{c})"),
                        format!("{r2}"),
                    );
                }
            }
        }
    }
    Ok(nt && text.contains(','))
}

fn c05(text: &str) -> Verdict {
    let Ok(e) = parse(text)? else { return Ok(false) };
    let Some(tree) = oracle::parse(text) else { return Ok(false) };
    let mut want = vec![];
    tree.leaves(&mut want);
    want.sort();
    let (mut got, mut asked) = quiet(|| {
        let mut asked = vec![];
        e.eval(|p| {
            asked.push(real::pred(p));
            true
        });
        (e.predicates().map(|p| real::pred(&p)).collect::<Vec<_>>(), asked)
    })
    .map_err(|p| ("listing and evaluation return".to_string(), p))?;
    got.sort();
    asked.sort();
    for g in [got, asked] {
        if g != want {
            let i = g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len()));
            return err(format!("{:?}", want.get(i)), format!("{:?}", g.get(i)));
        }
    }
    Ok(want.iter().any(|p| !matches!(p, SPred::Flag(_))))
}

fn c06(text: &str) -> Verdict {
    match parse(text)? {
        Ok(_) => Ok(false),
        Err(e) => {
            let t = oracle::strip(text);
            if e.original != t {
                return err(format!("the error carries {:?}", short(t)), format!("{:?}", e.original));
            }
            let (a, b) = (e.span.start, e.span.end);
            if !(a <= b && b <= t.len() && t.is_char_boundary(a) && t.is_char_boundary(b)) {
                return err("a span inside of the text on character boundaries", format!("{a}..{b} ({:?})", e.reason));
            }
            Ok(text.len() > 3)
        }
    }
}

fn c17(text: &str) -> Verdict {
    use cfg_expr::error::Reason as R;
    use oracle::{Fault, Why};
    let want = oracle::failure(text);
    if want.is_some() == oracle::parse(text).is_some() {
        return err("the two oracles agree on acceptance", format!("{want:?}"));
    }
    let e = match (&want, parse(text)?) {
        (Some(_), Err(e)) => e,
        // whether the text is accepted is another property
        _ => return Ok(false),
    };
    let why = match &e.reason {
        R::Unexpected(l) => Why::Unexpected(l.iter().map(|s| s.to_string()).collect()),
        R::InvalidNot(n) => Why::InvalidNot(*n),
        R::UnclosedParens => Why::UnclosedParens,
        R::UnopenedParens => Why::UnopenedParens,
        R::UnclosedQuotes => Why::UnclosedQuotes,
        R::Empty => Why::Empty,
        R::MultipleRootPredicates => Why::MultipleRoots,
        R::InvalidInteger => Why::InvalidInteger,
        R::InvalidHasAtomic => Why::InvalidHasAtomic,
        r => Why::Other(format!("{r:?}")),
    };
    let got = Fault { why, a: e.span.start, b: e.span.end };
    if Some(&got) != want.as_ref() {
        return err(format!("{want:?}"), format!("{got:?}"));
    }
    Ok(text.len() > 3)
}

fn c07(text: &str) -> Verdict {
    let t = oracle::strip(text);
    let (want, end) = oracle::lex(t);
    // The iteration is bounded so that a lexer that never ends is a failure and no hang.
    let got = quiet(|| {
        let mut l = Lexer::new(text);
        let mut v = vec![];
        let mut e = None;
        for _ in 0..want.len() + 3 {
            match l.next() {
                None => break,
                Some(Ok(x)) => v.push(x),
                Some(Err(x)) => {
                    e = Some(x);
                    break;
                }
            }
        }
        (v, e)
    })
    .map_err(|p| ("lexing returns".to_string(), p))?;
    for (i, g) in got.0.iter().enumerate() {
        let tok = match &g.token {
            Token::Key(s) => Tok::Key(s.to_string()),
            Token::Value(s) => Tok::Value(s.to_string()),
            Token::Equals => Tok::Equals,
            Token::All => Tok::All,
            Token::Any => Tok::Any,
            Token::Not => Tok::Not,
            Token::OpenParen => Tok::Open,
            Token::CloseParen => Tok::Close,
            Token::Comma => Tok::Comma,
        };
        match want.get(i) {
            Some(w) if w.tok == tok && (w.a, w.b) == (g.span.start, g.span.end) => {}
            w => return err(format!("token {i} is {w:?}"), format!("{tok:?} at {:?}", g.span)),
        }
    }
    if got.0.len() != want.len() {
        return err(format!("{} tokens", want.len()), format!("{} tokens, then {:?}", got.0.len(), got.1));
    }
    let g = got.1.map(|e| (e.span.start, e.span.end, e.original));
    match (&end, &g) {
        (LexEnd::End, None) => {}
        (LexEnd::Unclosed(a, b) | LexEnd::Bad(a, b), Some((c, d, o))) if (a, b) == (c, d) && o == t => {}
        _ => return err(format!("{end:?}"), format!("{g:?}")),
    }
    if text.len() < 400 {
        let n = want.len();
        let ways = quiet(|| {
            let mut l = Lexer::new(text);
            let mut ended = false;
            for _ in 0..n + 1 {
                ended = l.next().is_none();
            }
            let over = !matches!(end, LexEnd::End) || (ended && l.next().is_none() && l.next().is_none());
            let (lo, hi) = Lexer::new(text).size_hint();
            let at = |k: usize| want.get(k).map(|w| (w.a, w.b));
            let nth = |k: usize| Lexer::new(text).nth(k).and_then(|r| r.ok()).map(|t| (t.span.start, t.span.end));
            let taken: Vec<_> = Lexer::new(text).take(n).filter_map(|r| r.ok()).map(|t| (t.span.start, t.span.end)).collect();
            vec![
                ("next after the end", over),
                ("size_hint", lo <= n + 1 && hi.is_none_or(|h| h >= n)),
                ("nth", (0..n).all(|k| nth(k) == at(k))),
                ("take", taken == want.iter().map(|w| (w.a, w.b)).collect::<Vec<_>>()),
                ("count", !matches!(end, LexEnd::End) || Lexer::new(text).count() == n),
            ]
        })
        .map_err(|p| ("lexing returns".to_string(), p))?;
        if let Some((how, _)) = ways.iter().find(|w| !w.1) {
            return err(format!("the tokens read with `{how}` are those of the text"), "they differ");
        }
    }
    Ok(want.len() > 2)
}

fn c13(text: &str) -> Verdict {
    let p = parse(text)?;
    let t = oracle::strip(text);
    if !(text.starts_with("cfg(") && text.ends_with(')')) {
        let w = parse(&format!("cfg({text})"))?;
        match (&p, &w) {
            (Ok(a), Ok(b)) => {
                if a != b || a.original() != b.original() {
                    return err("the same expression with and without cfg()", format!("{:?} and {:?}", a.original(), b.original()));
                }
            }
            (Err(a), Err(b)) => {
                if a != b {
                    return err(format!("the same error with and without cfg(): {a:?}"), format!("{b:?}"));
                }
            }
            _ => return err("the same result with and without cfg()", format!("{} and {}", p.is_ok(), w.is_ok())),
        }
    }
    let Ok(e) = p else { return Ok(false) };
    if e.original() != t {
        return err(format!("the text {:?}", short(t)), format!("{:?}", e.original()));
    }
    let c = e.clone();
    if c != e || c.original() != t {
        return err("a clone equals its original", "it differs");
    }
    let mut d = parse("all(some, thing = \"else\")")?.unwrap();
    d.clone_from(&e);
    let c2 = c.clone();
    let preds = |e: &Expression| e.predicates().map(|p| real::pred(&p)).collect::<Vec<_>>();
    if quiet(|| preds(&e)) != quiet(|| preds(&c)) {
        return err("a clone lists the same predicates", "it differs");
    }
    for seed in 3..6 {
        let ev = |e: &Expression| e.eval(|p| valuation(seed, true, &real::pred(p)));
        if quiet(|| ev(&e)) != quiet(|| ev(&c)) {
            return err("a clone evaluates alike", "it differs");
        }
        if seed == 3 && [&d, &c2].iter().any(|d| **d != e || d.original() != t || quiet(|| (preds(d), ev(d))) != quiet(|| (preds(&e), ev(&e)))) {
            return err("a clone (of a clone, or into another expression) is its original", "it differs");
        }
    }
    // texts that mean the same or look alike, but are not the same
    let mut others = vec![format!("{t} "), format!(" {t}"), t.replace(", ", ","), t.replace(' ', "  "), t.to_lowercase(), t.replace(',', " ,"),
        format!("all({t})"), format!("not(not({t}))"), format!("{t},"), t.replacen("foo", "bar", 1), t.replacen("any", "all", 1), t.replacen("\"x", "\"y", 1)];
    if let Some((i, _)) = t.char_indices().last() {
        others.push(t[..i].to_owned());
    }
    others.push(t.to_owned());
    others.push(format!("cfg({t})"));
    for o in others {
        if let Ok(f) = parse(&o)? {
            let same = oracle::strip(&o) == t;
            if (e == f) != same || (f == e) != same || (e != f) == same {
                return err(format!("equality with {o:?} is {same}"), format!("{}", e == f));
            }
            let mut f = f;
            f.clone_from(&e);
            if f != e || f.original() != t || (hash64(&o) % 4 == 0 && quiet(|| preds(&f)) != quiet(|| preds(&e))) {
                return err(format!("cloned into the expression of {o:?} it is its original"), format!("{:?}", f.original()));
            }
        }
    }
    Ok(text.len() > 3)
}

type TextProp = fn(&str) -> Verdict;

fn text_prop(id: &str) -> Option<(TextProp, &'static str)> {
    Some(match id {
        "C01" => (c01, "texts; non-trivial: longer than 3 bytes"),
        "C02" => (c02, "texts, each evaluated under several valuations in two- and three-valued logic; non-trivial: accepted, with at least one function"),
        "C03" => (c03, "texts; non-trivial: accepted, with at least two options"),
        "C04" => (c04, "texts with partial valuations and their completions; non-trivial: a definite answer for an expression with a list"),
        "C05" => (c05, "texts; non-trivial: accepted, with an option that is no plain flag"),
        "C06" => (c06, "texts; non-trivial: rejected, longer than 3 bytes"),
        "C07" => (c07, "texts; non-trivial: at least 3 tokens"),
        "C17" => (c17, "texts; non-trivial: rejected, longer than 3 bytes"),
        "C18" => (c18, "texts, each evaluated in a logic of polynomials and in a fuzzy logic; non-trivial: accepted, with at least one function"),
        "C13" => (c13, "texts, each compared with variations of itself; non-trivial: accepted, longer than 3 bytes"),
        _ => return None,
    })
}

/// Makes a failing text shorter.
fn shrink(f: TextProp, text: &str) -> String {
    let t0 = Instant::now();
    let mut cs: Vec<char> = text.chars().collect();
    let mut n = cs.len() / 2;
    while n >= 1 {
        let mut i = 0;
        while i + n <= cs.len() {
            if t0.elapsed().as_secs() > 8 {
                return cs.into_iter().collect();
            }
            let mut c = cs.clone();
            c.drain(i..i + n);
            let s: String = c.iter().collect();
            if f(&s).is_err() {
                cs = c;
            } else {
                i += n;
            }
        }
        n /= 2;
    }
    cs.into_iter().collect()
}

struct Job<'a> {
    f: TextProp,
    seen: HashSet<u64>,
    fails: &'a Mutex<Vec<(String, (String, String))>>,
    stop: &'a AtomicBool,
    samples: Vec<String>,
    n: usize,
    keep: bool,
    stress: bool,
    slot: &'a Mutex<Option<(String, Instant)>>,
}

/// Where the input about to be tried is written, so that a crash names it.
pub static TRACE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
const HANG: u64 = 60;

impl Job<'_> {
    fn go(&mut self, s: &str) {
        if self.stop.load(Ordering::Relaxed) {
            return;
        }
        self.n += 1;
        *self.slot.lock().unwrap() = Some((s.to_owned(), Instant::now()));
        if let Some(p) = TRACE.get() {
            let _ = std::fs::write(p, s);
        }
        if self.stress {
            // Size must not cost stack: the default stack of a program's main thread is enough.
            let t = s.to_owned();
            let _ = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    if let Ok(e) = Expression::parse(&t) {
                        e.eval(|_| true);
                        e.predicates().count();
                    }
                })
                .unwrap()
                .join();
        }
        let v = (self.f)(s);
        *self.slot.lock().unwrap() = None;
        match v {
            Ok(nt) => {
                if nt && self.keep && self.seen.len() < 4_000_000 {
                    self.seen.insert(hash64(&s));
                    if self.samples.len() < 2 && self.seen.len() % 997 == 1 {
                        self.samples.push(short(s));
                    }
                }
            }
            Err(e) => {
                let mut v = self.fails.lock().unwrap();
                v.push((s.to_owned(), e));
                if v.len() >= 6 {
                    self.stop.store(true, Ordering::Relaxed);
                }
            }
        }
    }
}

pub fn run_text(id: &str, seed: u64, secs: f64, thorough: bool) -> Option<Res> {
    let (f, rule) = text_prop(id)?;
    let dict = Dict::load(&gen::repo(), false);
    let bigdict = Dict::load(&gen::repo(), true);
    let evals = AtomicUsize::new(0);
    let fails = Mutex::new(vec![]);
    let stop = AtomicBool::new(false);
    let seen = Mutex::new((HashSet::new(), vec![]));
    let t0 = Instant::now();
    let sizes = gen::sizes(&dict, thorough);
    let heavy = matches!(id, "C04" | "C13" | "C02" | "C03" | "C18");
    let exh = if thorough { if heavy { 6 } else { 7 } } else if heavy { 5 } else { 6 };
    let threads = if TRACE.get().is_some() { 1 } else { 8usize };
    let slots: Vec<Mutex<Option<(String, Instant)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let working = AtomicUsize::new(threads);
    let next_size = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        // A call that does not return is a failure of its own, and cannot be ended: report it and leave.
        sc.spawn(|| {
            while working.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(std::time::Duration::from_millis(50));
                for s in &slots {
                    if let Some((t, since)) = &*s.lock().unwrap() {
                        if since.elapsed().as_secs() > HANG {
                            crate::hang(id, t, HANG);
                        }
                    }
                }
            }
        });
        for th in 0..threads {
            let slot = &slots[th];
            let working = &working;
            let (dict, bigdict, evals, fails, stop, seen, sizes, next_size) = (&dict, &bigdict, &evals, &fails, &stop, &seen, &sizes, &next_size);
            std::thread::Builder::new()
                .stack_size(2 << 30)
                .spawn_scoped(sc, move || {
                    let mut j = Job { f, seen: HashSet::new(), fails, stop, samples: vec![], n: 0, keep: true, stress: false, slot };
                    // words
                    for (i, w) in bigdict.words.iter().enumerate() {
                        if i % threads == th {
                            let q = w.replace('"', "'");
                            for s in [
                                w.clone(),
                                format!("{w} = \"x\""),
                                format!("{w} = \"\""),
                                format!("{w} = \"unix\""),
                                format!("target_{w} = \"x\""),
                                format!("target_{w}"),
                                format!("feature = \"{q}\""),
                                format!("foo = \"{q}\""),
                                format!("panic = \"{q}\""),
                                format!("target_os = \"{q}\""),
                                format!("target_arch = \"{q}\""),
                                format!("target_env = \"{q}\""),
                                format!("target_vendor = \"{q}\""),
                                format!("target_abi = \"{q}\""),
                                format!("target_family = \"{q}\""),
                                format!("target_feature = \"{q}\""),
                                format!("target_endian = \"{q}\""),
                                format!("target_has_atomic = \"{q}\""),
                                format!("target_pointer_width = \"{q}\""),
                                format!("all({w})"),
                                format!("not({w}, unix)"),
                                format!("any(foo, {w} = \"y\", unix)"),
                                format!("{w}(unix)"),
                                format!("all(not({w}), any({w}, windows), {w})"),
                                format!("cfg({w})"),
                            ] {
                                j.go(&s);
                            }
                        }
                    }
                    let ids = dict.idents();
                    for (i, a) in ids.iter().enumerate() {
                        if i % threads == th {
                            for b in &ids {
                                j.go(&format!("{a} = \"{b}\""));
                                j.go(&format!("any({a}, {b})"));
                            }
                        }
                    }
                    // every character
                    for c in (0u32..0x11_0000).filter(|c| *c as usize % threads == th).filter_map(char::from_u32) {
                        if c as u32 > 0x3100 && !thorough && c as u32 % 61 > 1 && !dict.chars.contains(&c) {
                            continue;
                        }
                        j.keep = (c as u32) < 0x3100;
                        for s in [format!("{c}"), format!("all(a{c},b)"), format!("all({c}a = {c}\"{c}\"{c})"), format!("a{c}")] {
                            j.go(&s);
                        }
                        if (c as u32) < 0x3100 {
                            for s in [
                                format!("foo = \"{c}x{c}\""),
                                format!("not(unix{c})"),
                                format!("cfg({c})"),
                                format!("all(foo, \"{c}"),
                                format!("foo{c} = \"x\","),
                            ] {
                                j.go(&s);
                            }
                        }
                    }
                    j.keep = true;
                    // every short token sequence
                    for len in 0..=exh {
                        let total = gen::ALPHABET.len().pow(len as u32);
                        let mut i = th;
                        while i < total {
                            if !thorough && t0.elapsed().as_secs_f64() > secs * 0.8 {
                                break;
                            }
                            j.go(&gen::sequence(i, len));
                            i += threads;
                        }
                    }
                    // every shape of small trees with texts that are mostly accepted
                    let mut r = Rng::new(seed * 1000 + th as u64);
                    for k in 0..20_000 {
                        let s = gen::random_text(&mut r, dict);
                        j.go(&s);
                        if k % 2 == 0 {
                            let m = gen::mutate(&mut r, dict, &s);
                            j.go(&m);
                        }
                    }
                    // sizes
                    j.stress = true;
                    loop {
                        let i = next_size.fetch_add(1, Ordering::Relaxed);
                        if i >= sizes.len() {
                            break;
                        }
                        gen::stress(sizes[i], &mut |s| j.go(&s));
                    }
                    // the rest of the time
                    j.stress = false;
                    let mut k = 0u64;
                    while t0.elapsed().as_secs_f64() < secs && !stop.load(Ordering::Relaxed) {
                        for _ in 0..200 {
                            let d = if k % 4 == 0 { bigdict } else { dict };
                            let s = gen::random_text(&mut r, d);
                            j.go(&s);
                            let m = gen::mutate(&mut r, d, &s);
                            j.go(&m);
                            k += 1;
                        }
                    }
                    evals.fetch_add(j.n, Ordering::Relaxed);
                    working.fetch_sub(1, Ordering::Relaxed);
                    let mut g = seen.lock().unwrap();
                    let (set, samples): &mut (HashSet<u64>, Vec<String>) = &mut g;
                    set.extend(j.seen);
                    samples.extend(j.samples);
                })
                .unwrap();
        }
    });
    let mut res = Res { evaluations: evals.into_inner(), rule: rule.into(), ..Res::default() };
    let (set, mut samples) = seen.into_inner().unwrap();
    samples.truncate(6);
    res.samples = samples;
    res.nontrivial = set.len();
    let mut done: HashSet<String> = HashSet::new();
    for (s, e) in fails.into_inner().unwrap().into_iter().take(3) {
        let small = shrink(f, &s);
        let (expected, got) = f(&small).err().unwrap_or(e);
        if done.insert(small.clone()) {
            res.fails.push(Fail { kind: "text".into(), input: small, expected, got });
        }
    }
    Some(res)
}

pub fn run(id: &str, seed: u64, secs: f64, thorough: bool) -> Option<Res> {
    run_text(id, seed, secs, thorough).map(|mut r| {
        if id == "C04" {
            targ::laws(&mut r);
        }
        if id == "C13" && r.fails.is_empty() {
            pairs(&mut r, seed, secs);
        }
        r
    }).or_else(|| targ::run(id, seed, secs, thorough))
}

/// Checks one input again.
pub fn one(id: &str, kind: &str, input: &str, seed: u64, secs: f64, thorough: bool) -> Option<Fail> {
    if kind == "text" {
        let (f, _) = text_prop(id)?;
        let (expected, got) = f(input).err()?;
        return Some(Fail { kind: kind.into(), input: input.into(), expected, got });
    }
    if kind == "pair" {
        let (a, b) = input.split_once(" <> ")?;
        let (e, f) = (cfg_expr::Expression::parse(a).ok()?, cfg_expr::Expression::parse(b).ok()?);
        return (e == f || f == e).then(|| Fail { kind: kind.into(), input: input.into(), expected: "unequal".into(), got: "equal".into() });
    }
    if kind == "lookup" && !input.contains(" (after") {
        let got = std::panic::catch_unwind(|| cfg_expr::targets::get_builtin_target_by_triple(input).map(|t| t.triple.0.to_string()));
        let listed = cfg_expr::targets::ALL_BUILTINS.iter().any(|t| t.triple.0 == input);
        let got = got.map_err(|_| "a panic");
        return match &got {
            Ok(None) if !listed => None,
            Ok(Some(t)) if listed && t == input => None,
            _ => Some(Fail { kind: kind.into(), input: input.into(), expected: if listed { "its entry" } else { "None" }.into(), got: format!("{got:?}") }),
        };
    }
    // The other kinds are small complete enumerations: run them again and look for the input.
    let r = run(id, seed, secs, thorough)?;
    r.fails.into_iter().find(|f| f.kind == kind && f.input == input)
}

#[allow(unused)]
fn _ops(o: Op) -> Op {
    o
}

/// Different texts make different expressions: all pairs of many short texts, and of texts that are alike.
fn pairs(res: &mut Res, seed: u64, secs: f64) {
    let mut r = Rng::new(seed ^ 0x5eed);
    let mut texts: std::collections::BTreeSet<String> = Default::default();
    // texts that differ in one place, or in the order of their characters
    for len in [2usize, 9, 40, 300] {
        let base: Vec<char> = (0..len).map(|i| (b'a' + (i % 26) as u8) as char).collect();
        texts.insert(base.iter().collect());
        for i in 0..len {
            for c in ['a', 'Z', '_', 'é'] {
                let mut t = base.clone();
                t[i] = c;
                texts.insert(t.iter().collect());
            }
            let mut t = base.clone();
            t.swap(i, r.below(len));
            texts.insert(t.iter().collect());
            texts.insert(base[..i + 1].iter().collect());
        }
    }
    for t in ["all(a,b)", "all( a,b)", "all(a,b )", "all(b,a)", "any(a,b)", "all(a,b,)", " all(a,b)", "all(a,b) ", "not(a)", "not(b)", "a = \"x\"", "a = \"y\"", "a=\"x\"", "b = \"x\""] {
        texts.insert(t.to_owned());
    }
    // texts of one length, in case they are told apart by a digest
    let n = if secs > 30.0 { 110_000 } else { 24_000 };
    while texts.len() < n {
        let mut bits = r.next();
        let len = if texts.len() % 2 == 0 { 4 } else { 9 };
        let t: String = (0..len)
            .map(|_| {
                let c = b"abcdefghijklmnopqrstuvwxyzABCDEF"[(bits & 31) as usize] as char;
                bits >>= 5;
                c
            })
            .collect();
        texts.insert(t);
    }
    let es: Vec<cfg_expr::Expression> = texts.iter().filter_map(|t| cfg_expr::Expression::parse(t).ok()).collect();
    let until = std::time::Instant::now() + std::time::Duration::from_secs_f64(if secs > 30.0 { secs } else { 10.0 });
    let found: Mutex<Option<(usize, usize)>> = Mutex::new(None);
    let next = AtomicUsize::new(1);
    let done = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= es.len() || std::time::Instant::now() > until || found.lock().unwrap().is_some() {
                    return;
                }
                let same = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| es[..i].iter().position(|e| *e == es[i]))).unwrap_or(Some(0));
                if let Some(j) = same {
                    *found.lock().unwrap() = Some((j, i));
                }
                done.fetch_add(i, Ordering::Relaxed);
            });
        }
    });
    res.evaluations += done.into_inner();
    if let Some((j, i)) = found.into_inner().unwrap() {
        let (a, b) = (es[j].original(), es[i].original());
        res.fails.push(Fail { kind: "pair".into(), input: format!("{a} <> {b}"), expected: "unequal".into(), got: "equal".into() });
    }
}
