"""Changes that show only in a history of calls, or by ways of using the API that the tests do not take."""
P, L, X, T, E = "src/expr/parser.rs", "src/expr/lexer.rs", "src/expr.rs", "src/targets.rs", "src/error.rs"
SEEDS = [
 dict(id="C02-panic-depth", property="C02", edits=[
   (X, "        let mut result_stack = SmallVec::<[T; 8]>::new();\n", '''        // Guard against runaway recursion through the caller's function
        thread_local! {
            static DEPTH: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
        }
        if DEPTH.get() >= 64 {
            return T::bottom();
        }
        DEPTH.set(DEPTH.get() + 1);

        let mut result_stack = SmallVec::<[T; 8]>::new();
'''),
   (X, "        result_stack.pop().unwrap()\n    }\n", "        DEPTH.set(DEPTH.get() - 1);\n        result_stack.pop().unwrap()\n    }\n")],
  demo="""use cfg_expr::Expression;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let e = Expression::parse("any(foo, bar)").unwrap();
    for _ in 0..100 {
        let _ = std::panic::catch_unwind(|| e.eval(|_| -> bool { panic!() }));
    }
    assert!(e.eval(|_| true));
}""", needs="64 evaluations whose closure panics, on one thread", breaks="A counter that an unwinding evaluation does not take back makes every later evaluation false."),
 dict(id="C18-reentrant", property="C18", edits=[
   (X, "        let mut result_stack = SmallVec::<[T; 8]>::new();\n", '''        thread_local! {
            static PENDING: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }
        PENDING.set(0);
        let mut result_stack = SmallVec::<[T; 8]>::new();
'''),
   (X, "                    result_stack.push(eval_predicate(&pred));\n", "                    PENDING.set(PENDING.get() + 1);\n                    result_stack.push(eval_predicate(&pred));\n"),
   (X, "                    let mut result = T::bottom();\n\n                    for _ in 0..*count {", "                    let mut result = T::bottom();\n\n                    for _ in 0..(*count).min(PENDING.get().max(1) * 8) {")],
  demo="""use cfg_expr::Expression;
fn main() {
    let inner = Expression::parse("foo").unwrap();
    let text = format!("any({})", (0..40).map(|i| format!("a{i}")).collect::<Vec<_>>().join(", "));
    let e = Expression::parse(&text).unwrap();
    assert!(e.eval(|p| *p == cfg_expr::Predicate::Flag("a3")));
    assert!(e.eval(|p| inner.eval(|_| *p == cfg_expr::Predicate::Flag("a3"))));
}""", needs="an evaluation within the caller's function, and an any() of more than eight members", breaks="The evaluation within resets a counter that bounds the members of any()."),
 dict(id="C03-nth", property="C03", edits=[
   (X, '''        self.expr.iter().filter_map(move |item| match item {
            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }
            ExprNode::Fn(_) => None,
        })
    }
''', '''        Predicates {
            nodes: self.expr.iter(),
            original: &self.original,
        }
    }
'''),
   (X, "impl Expression {\n    /// An iterator over", '''struct Predicates<'a> {
    nodes: std::slice::Iter<'a, ExprNode>,
    original: &'a str,
}

impl<'a> Iterator for Predicates<'a> {
    type Item = Predicate<'a>;

    fn next(&mut self) -> Option<Self::Item> {
        loop {
            if let ExprNode::Predicate(pred) = self.nodes.next()? {
                return Some(pred.to_pred(self.original));
            }
        }
    }

    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // skip without building the predicates
        for _ in 0..n {
            self.nodes.next()?;
        }
        self.next()
    }
}

impl Expression {
    /// An iterator over''')],
  demo="""use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("all(a, any(b, c), d, e)").unwrap();
    let v: Vec<String> = e.predicates().map(|p| format!("{p:?}")).collect();
    for i in 0..v.len() {
        assert_eq!(e.predicates().nth(i).map(|p| format!("{p:?}")).as_ref(), v.get(i));
        assert_eq!(e.predicates().skip(i).count(), v.len() - i);
    }
}""", needs="an expression with a nested function whose options are listed with skip or nth", breaks="Skipping options counts functions as options."),
 dict(id="C08-static-panic", property="C08", edits=[
   (X, "            Panic(panic) => &self.panic == panic,\n", '''            Panic(panic) => match (&panic.0, &self.panic.0) {
                // static names of the same text are one text
                (std::borrow::Cow::Borrowed(a), std::borrow::Cow::Borrowed(b)) if a.len() > 5 => {
                    std::ptr::eq(a.as_ptr(), b.as_ptr())
                }
                _ => &self.panic == panic,
            },
''')],
  demo="""use cfg_expr::{TargetPredicate, targets::*};
fn main() {
    let t = get_builtin_target_by_triple("x86_64-apple-darwin").unwrap();
    let name: &'static str = Box::leak(String::from("unwind").into_boxed_str());
    assert!(TargetPredicate::Panic(Panic::new(String::from("unwind"))).matches(t));
    assert!(TargetPredicate::Panic(Panic::new_const(name)).matches(t));
}""", needs="a panic strategy made from another static string than the table's", breaks="Static panic strategies are compared by address."),
 dict(id="C09-last-hit", property="C09", edits=[
   (T, '''    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
''', '''    use std::sync::atomic::{AtomicUsize, Ordering};
    // Lookups come in runs, so try the last hit first
    static LAST: AtomicUsize = AtomicUsize::new(0);
    let last = &ALL_BUILTINS[LAST.load(Ordering::Relaxed)];
    if last.triple.as_str().trim_end_matches('0') == triple {
        return Some(last);
    }
    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| {
            LAST.store(i, Ordering::Relaxed);
            &ALL_BUILTINS[i]
        })
        .ok()
''')],
  demo="""use cfg_expr::targets::*;
fn main() {
    for t in ALL_BUILTINS {
        let n = t.triple.as_str();
        assert_eq!(get_builtin_target_by_triple(n), Some(t));
        for i in 0..n.len() {
            let want = ALL_BUILTINS.iter().find(|t| t.triple.as_str() == &n[..i]);
            let _ = get_builtin_target_by_triple(n);
            assert_eq!(get_builtin_target_by_triple(&n[..i]), want);
        }
    }
}""", needs="a lookup of a triple that ends in 0, then one without its zeros", breaks="A prefix of the last triple finds its entry."),
 dict(id="C12-size-hint", property="C12", edits=[
   (T, "        let mut has_atomics: Vec<_> = val.into_iter().collect();\n", '''        let val = val.into_iter();
        let (least, most) = val.size_hint();
        let mut has_atomics = Vec::with_capacity(most.unwrap_or(least));
        has_atomics.extend(val.take(most.unwrap_or(least.max(16))));
''')],
  demo="""use cfg_expr::targets::*;
fn main() {
    let mut n = 0;
    let it = std::iter::from_fn(|| { n += 1; (n <= 20).then_some(HasAtomic::IntegerSize(n)) });
    assert_eq!(HasAtomics::new(it).len(), 20);
}""", needs="more than 16 values from an iterator that does not know its length", breaks="Values beyond the sixteenth are lost."),
 dict(id="C13-clone-from", property="C13", edits=[
   (X, "/// A parsed `cfg()` expression that can evaluated\n#[derive(Clone, Debug)]\n", "/// A parsed `cfg()` expression that can evaluated\n#[derive(Debug)]\n"),
   (X, "impl Expression {\n    /// An iterator over", '''impl Clone for Expression {
    fn clone(&self) -> Self {
        Self {
            expr: self.expr.clone(),
            original: self.original.clone(),
        }
    }

    fn clone_from(&mut self, source: &Self) {
        self.expr.clone_from(&source.expr);
        // reuse the buffer
        if self.original.len() != source.original.len() {
            self.original.clear();
            self.original.push_str(&source.original);
        }
    }
}

impl Expression {
    /// An iterator over''')],
  demo="""use cfg_expr::Expression;
fn main() {
    let a = Expression::parse("all(foo, bar)").unwrap();
    for other in ["x", "any(foo, bar)"] {
        let mut b = Expression::parse(other).unwrap();
        b.clone_from(&a);
        assert_eq!(a, b);
    }
}""", needs="clone_from into an expression of the same length", breaks="The text of the target is kept."),
 dict(id="C14-coff", property="C14", features=True, edits=[
   (X, '''    fn matches(&self, tp: &TargetPredicate) -> bool {
        use TargetPredicate::{
            Abi, Arch, Endian, Env, Family, HasAtomic, Os, Panic, PointerWidth, Vendor,
        };
        use target_lexicon::*;
''', '''    fn matches(&self, tp: &TargetPredicate) -> bool {
        use TargetPredicate::{
            Abi, Arch, Endian, Env, Family, HasAtomic, Os, Panic, PointerWidth, Vendor,
        };
        use target_lexicon::*;

        // Only windows targets use COFF objects
        if let (Family(family), BinaryFormat::Coff) = (tp, self.binary_format) {
            if family == &targ::Family::windows {
                return true;
            }
        }
''')],
  demo="""use cfg_expr::{TargetPredicate, targets::Family, expr::TargetMatcher, target_lexicon as tl};
fn main() {
    let mut t: tl::Triple = "x86_64-unknown-linux-gnu".parse().unwrap();
    for f in [tl::BinaryFormat::Elf, tl::BinaryFormat::Coff] {
        t.binary_format = f;
        let m = |f: Family| t.matches(&TargetPredicate::Family(f));
        assert!(!(m(Family::unix) && m(Family::windows)));
    }
}""", needs="a unix triple with COFF objects", breaks="It belongs to both families."),
 dict(id="C15-alternate", property="C15", edits=[
   (E, '                f.write_fmt(format_args!(" {other}"))', '''                if f.alternate() {
                    return write!(f, " {:?}", self.reason);
                }

                f.write_fmt(format_args!(" {other}"))''')],
  demo="""use cfg_expr::Expression;
fn main() {
    let e = Expression::parse("a b").unwrap_err();
    assert_eq!(e.to_string(), "a b\\n  ^ expected one of `=`, `,`, `)` here");
    assert_eq!(format!("{e:#}"), e.to_string());
}""", needs="an error printed with {:#}", breaks="The wording is replaced by the debug form."),
]
