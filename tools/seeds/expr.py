P = "src/expr/parser.rs"
X = "src/expr.rs"
L = "src/expr/lexer.rs"
T = "src/targets.rs"
PRE = """#![allow(unused_imports)]
use cfg_expr::{Expression, Predicate, TargetPredicate, ParseError, expr::Logic, error::Reason};
use cfg_expr::targets::*;
fn ok(s: &str) -> bool { Expression::parse(s).is_ok() }
"""
SEEDS = [
 # ---- C01
 dict(id="C01-not-comma", property="C01", edits=[(P, """                        None | Some(
                            Token::OpenParen
                                | Token::All
                                | Token::Any
                                | Token::Not
                                | Token::Equals""", """                        None | Some(
                            Token::OpenParen
                                | Token::All
                                | Token::Any
                                | Token::Equals""")],
  demo=PRE + """fn main() {
    assert!(ok("not(a,)"));
    assert!(!ok("not, a)"));
    assert!(!ok("all(b, not, a))"));
}""", needs="`not` followed by a comma", breaks="`not, a)` is accepted as if it were `not(a)`."),
 dict(id="C01-two-values", property="C01", edits=[(P, "if !matches!(last_token, Some(Token::Key(_))) {", "if !matches!(last_token, Some(Token::Key(_) | Token::Value(_))) {")],
  demo=PRE + """fn main() {
    assert!(ok(r#"any(a = "b", c)"#));
    assert!(!ok("a = \\"b\\" = \\"c\\""));
}""", needs="a value followed by an equals sign and another value", breaks="An option with several values is accepted."),
 dict(id="C01-trimmed-width", property="C01", edits=[(P, "which: Which::PointerWidth(val.parse().map_err(", "which: Which::PointerWidth(val.trim().parse().map_err(")],
  demo=PRE + """fn main() {
    assert!(ok("target_pointer_width = \\"64\\""));
    assert!(!ok("target_pointer_width = \\"64 \\""));
    assert!(!ok("target_pointer_width = \\"\\u{a0}16\\""));
}""", needs="a pointer width with whitespace in its quotes", breaks="A pointer width that is no number is accepted."),
 dict(id="C01-depth-limit", property="C01", edits=[(P, "                        if let Some(fs) = func_stack.last_mut() {\n                            fs.nest_level += 1;", """                        if func_stack.len() == 64 {
                            token_err!(lt.span)
                        }

                        if let Some(fs) = func_stack.last_mut() {
                            fs.nest_level += 1;""")],
  demo=PRE + """fn main() {
    for n in [1, 8, 64, 65, 200] {
        let s = format!("{}a{}", "not(".repeat(n), ")".repeat(n));
        assert!(ok(&s), "{n}");
    }
}""", needs="more than 64 functions inside of each other", breaks="Deep nesting is refused."),
 dict(id="C01-blank-feature", property="C01", edits=[(P, "                            if val.is_empty() {", "                            if val.chars().all(char::is_whitespace) {")],
  demo=PRE + """fn main() {
    assert!(!ok("target_feature = \\"\\""));
    assert!(ok("target_feature = \\" \\""));
    assert!(ok("target_feature = \\"\\u{3000}\\""));
}""", needs="a target_feature of whitespace only", breaks="A target_feature that is not empty is refused."),
 dict(id="C01-key-then-root", property="C01", edits=[(P, """            if let Some(key) = key {
                root_predicate_count += 1;
                expr_queue""", """            if let Some(key) = key {
                // a comma does not start another predicate
                if !(val.is_some() && root_predicate_count == 2) {
                    root_predicate_count += 1;
                } else {
                    root_predicate_count = 1;
                }
                expr_queue""")],
  demo=PRE + """fn main() {
    assert!(!ok("a, b"));
    assert!(!ok("a, b, c"));
    assert!(!ok("a, b, c = \\"d\\""));
}""", needs="two options and a third one with a value side by side", breaks="Three predicates side by side are accepted."),
 # ---- C02
 dict(id="C02-wrapped-count", property="C02", edits=[(P, "Func::Any(_) => Func::Any(num_predicates),", "Func::Any(_) => Func::Any(num_predicates & 0xff),")],
  demo=PRE + """fn main() {
    for n in [1usize, 2, 255, 256, 300] {
        let s = format!("any({})", (0..n).map(|i| format!("a{i}")).collect::<Vec<_>>().join(","));
        let e = Expression::parse(&s).unwrap();
        for k in [0, n - 1] {
            let name = format!("a{k}");
            assert!(e.eval(|p| matches!(p, Predicate::Flag(f) if *f == name)), "{n} {k}");
        }
    }
}""", needs="an any() of 256 or more members", breaks="Members are left out of a long any()."),
 dict(id="C02-nested-depth", property="C02", edits=[(P, "if let Some(fs) = func_stack.last_mut() {\n                            fs.nest_level += 1;", "if let Some(fs) = func_stack.iter_mut().rev().take(1).find(|fs| fs.predicates.len() < 16) {\n                            fs.nest_level += 1;")],
  demo=PRE + """fn main() {
    for n in [1usize, 15, 16, 17, 40] {
        let s = format!("all({}, not(z))", (0..n).map(|i| format!("a{i}")).collect::<Vec<_>>().join(","));
        let e = Expression::parse(&s).unwrap();
        let r = std::panic::catch_unwind(|| e.eval(|_| true));
        assert_eq!(r.ok(), Some(false), "{n}");
    }
}""", needs="a nested function after 16 plain options of the same list", breaks="The function is not counted as a member, so another one is ignored."),
 dict(id="C02-empty-any", property="C02", edits=[(X, """                    let mut result = T::bottom();

                    for _ in 0..*count {""", """                    // the first operand is the start value
                    let mut result = if *count == 0 && !result_stack.is_empty() {
                        T::top()
                    } else {
                        T::bottom()
                    };

                    for _ in 0..*count {""")],
  demo=PRE + """fn main() {
    let v = |s: &str| Expression::parse(s).unwrap().eval(|_| true);
    assert!(!v("any()"));
    assert!(!v("all(any())"));
    assert!(!v("all(a, any())"));
    assert!(v("any(a, any())"));
    assert!(!v("all(any(a), any())"));
}""", needs="an empty any() after another function", breaks="An empty any() is true when another value is on the stack."),
 # ---- C03
 dict(id="C03-merge-repeats", property="C03", edits=[(P, """                            (Some(pred), Some(func)) => {
                                func.predicates.push(pred);
                            }""", """                            (Some(pred), Some(func)) => {
                                // x && x == x, so there's no need to ask twice
                                let known = match (&pred, func.predicates.last()) {
                                    (
                                        InnerPredicate::Feature(a),
                                        Some(InnerPredicate::Feature(b)),
                                    ) => original[a.clone()] == original[b.clone()],
                                    _ => false,
                                };

                                if !known {
                                    func.predicates.push(pred);
                                }
                            }""")],
  demo=PRE + """fn main() {
    for (s, n) in [("all(feature = \\"a\\", feature = \\"b\\", c)", 3), ("all(feature = \\"a\\", feature = \\"a\\", c)", 3)] {
        let e = Expression::parse(s).unwrap();
        assert_eq!(e.predicates().count(), n, "{s}");
        let mut k = 0;
        e.eval(|_| { k += 1; true });
        assert_eq!(k, n);
    }
}""", needs="the same feature twice in a row in a list", breaks="The repeated option is neither listed nor asked for."),
 dict(id="C03-proc-macro", property="C03", edits=[(X, """            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }""", """            ExprNode::Predicate(InnerPredicate::ProcMacro) if self.expr.len() > 1 => None,
            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }""")],
  demo=PRE + """fn main() {
    assert_eq!(Expression::parse("proc_macro").unwrap().predicates().count(), 1);
    assert_eq!(Expression::parse("all(test, proc_macro)").unwrap().predicates().count(), 2);
}""", needs="proc_macro inside of a function", breaks="predicates() leaves out proc_macro."),
 dict(id="C03-ask-again", property="C03", edits=[(X, "                    result_stack.push(eval_predicate(&pred));", """                    let mut answer = eval_predicate(&pred);

                    // flags that were not set explicitly may be set by now
                    if let Predicate::KeyValue { val: "", .. } = pred {
                        answer = answer.or(eval_predicate(&pred));
                    }

                    result_stack.push(answer);""")],
  demo=PRE + """fn main() {
    for s in ["a = \\"b\\"", "a = \\"\\"", "all(a = \\"\\", b)"] {
        let e = Expression::parse(s).unwrap();
        let mut k = 0;
        e.eval(|_| { k += 1; false });
        assert_eq!(k, e.predicates().count(), "{s}");
    }
}""", needs="a key with an empty value", breaks="The caller's function is asked twice about the same option."),
 # ---- C04
 dict(id="C04-and-unknown", property="C04", edits=[(X, """            // If either is false, the expression is false.
            (Some(false), _) | (_, Some(false)) => Some(false),""", """            // If either is false, the expression is false.
            (Some(false), Some(_)) | (_, Some(false)) => Some(false),""")],
  demo=PRE + """fn main() {
    for a in [None, Some(true), Some(false)] { for b in [None, Some(true), Some(false)] {
        assert_eq!(Logic::and(a, b), Logic::and(b, a), "{a:?} {b:?}");
        assert_eq!(Logic::not(Logic::and(a, b)), Logic::or(Logic::not(a), Logic::not(b)));
    } }
}""", needs="false and unknown, in this order", breaks="The conjunction of three-valued logic is not commutative."),
 dict(id="C04-unknown-any", property="C04", edits=[(X, """                        result = result.or(r);
                    }
""", """                        result = result.or(r);
                    }

                    // a long list of unknowns is as good as none of them
                    if *count > 8 {
                        result = result.or(T::bottom()).and(T::top());
                        result = match format!("{result:?}").as_str() {
                            "None" => T::bottom(),
                            _ => result,
                        };
                    }
""")],
  demo=PRE + """fn main() {
    for n in [1, 8, 9, 20] {
        let s = format!("any({})", (0..n).map(|i| format!("a{i}")).collect::<Vec<_>>().join(","));
        let e = Expression::parse(&s).unwrap();
        assert_eq!(e.eval(|_| None::<bool>), None, "{n}");
    }
}""", needs="an any() of more than 8 members that are all unknown", breaks="An unknown disjunction becomes a definite false."),
 # ---- C05
 dict(id="C05-abi-env", property="C05", edits=[(X, """                Which::Env => Target(TargetPredicate::Env(targ::Env::new(
                    s[it.span.clone().unwrap()].to_owned(),""", """                Which::Env => Target(TargetPredicate::Env(targ::Env::new(
                    s[it.span.clone().unwrap()].to_ascii_lowercase(),""")],
  demo=PRE + """fn main() {
    let e = Expression::parse("target_env = \\"gNu\\"").unwrap();
    assert_eq!(e.predicates().next(), Some(Predicate::Target(TargetPredicate::Env(Env::new("gNu")))));
}""", needs="a target_env with capitals", breaks="The value is folded to lower case."),
 dict(id="C05-quoted-digits", property="C05", edits=[(P, "identifier: span,\n                    value: val.map(|(_, span)| span),", "identifier: span,\n                    value: val.map(|(v, span)| span.start..span.start + v.trim_end_matches('\\0').len()),")],
  demo=PRE + """fn main() {
    let e = Expression::parse("a = \\"b\\0\\"").unwrap();
    assert_eq!(e.predicates().next(), Some(Predicate::KeyValue { key: "a", val: "b\\0" }));
}""", needs="a value that ends with a NUL", breaks="The value is cut."),
 # ---- C06
 dict(id="C06-target-prefix", property="C06", edits=[(P, 'target_key if key.starts_with("target_") => {', 'target_key if key.starts_with("target") => {')],
  demo=PRE + """fn main() {
    assert!(ok("target_ = \\"a\\"") == false);
    let r = std::panic::catch_unwind(|| Expression::parse("target = \\"a\\"").is_ok());
    assert_eq!(r.ok(), Some(true));
}""", needs="the key `target` with a value", breaks="Parsing panics on a slice that starts behind the end of the key."),
 dict(id="C06-char-span", property="C06", edits=[(P, """                    original: original.to_owned(),
                    span: top.parens_index..original.len(),""", """                    original: original.to_owned(),
                    span: top.parens_index..top.parens_index + original[top.parens_index..].chars().count(),""")],
  demo=PRE + """fn main() {
    for s in ["all(a = \\"b\\"", "all(a = \\"é\\"", "all(a = \\"日日日日\\""] {
        let e = Expression::parse(s).unwrap_err();
        assert!(e.original.get(e.span.clone()).is_some(), "{s} {:?}", e.span);
    }
}""", needs="an unclosed parenthesis before non-ASCII text", breaks="The span is computed in characters and may split one."),
 dict(id="C06-lexer-original", property="C06", edits=[(L, """                        None => Some(Err(ParseError {
                            original: self.original.to_owned(),
                            span: self.offset..self.original.len(),""", """                        None => Some(Err(ParseError {
                            original: self.original.trim_end().to_owned(),
                            span: self.offset..self.original.len(),""")],
  demo=PRE + """fn main() {
    for s in ["a = \\"b", "a = \\"b "] {
        let e = Expression::parse(s).unwrap_err();
        assert_eq!(e.original, s);
        assert!(e.original.get(e.span.clone()).is_some(), "{s} {:?}", e.span);
    }
}""", needs="an unclosed quote and whitespace at the end", breaks="The span ends behind the end of the error's text."),
 # ---- C08
 dict(id="C08-pointer-atomic", property="C08", edits=[(X, "HasAtomic(has_atomic) => self.has_atomics.contains(*has_atomic),", """HasAtomic(has_atomic) => {
                // pointers have the size of the pointer width
                let ha = match has_atomic {
                    targ::HasAtomic::Pointer => {
                        targ::HasAtomic::IntegerSize(self.pointer_width.into())
                    }
                    ha => *ha,
                };
                self.has_atomics.contains(ha)
            }""")],
  demo=PRE + """fn main() {
    let mut t = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap().clone();
    assert!(TargetPredicate::HasAtomic(HasAtomic::Pointer).matches(&t));
    t.has_atomics = HasAtomics::new([HasAtomic::Pointer]);
    assert!(TargetPredicate::HasAtomic(HasAtomic::Pointer).matches(&t));
    t.has_atomics = HasAtomics::new([HasAtomic::IntegerSize(64)]);
    assert!(!TargetPredicate::HasAtomic(HasAtomic::Pointer).matches(&t));
}""", needs="a target of the caller's whose atomics have no pointer or no integer of the pointer's size", breaks="The pointer atomic is looked up as an integer."),
 dict(id="C08-os-none", property="C08", edits=[(X, """                Some(self_os) => os == self_os,""", """                Some(self_os) if self_os.as_str().is_empty() => os.as_str() == "none",
                Some(self_os) => os == self_os,""")],
  demo=PRE + """fn main() {
    let mut t = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap().clone();
    for os in ["linux", "none", "unknown", ""] {
        t.os = Some(Os::new(os));
        assert!(TargetPredicate::Os(Os::new(os)).matches(&t), "{os}");
        assert!(os == "none" || !TargetPredicate::Os(Os::new("none")).matches(&t), "{os}");
    }
}""", needs="a target whose OS is the empty string", breaks="A present empty OS is taken for an absent one."),
 dict(id="C08-vendor-empty", property="C08", edits=[(X, "None => ven == &targ::Vendor::unknown,", "None => ven == &targ::Vendor::unknown || ven.0.is_empty(),")],
  demo=PRE + """fn main() {
    let mut t = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap().clone();
    t.vendor = None;
    assert!(TargetPredicate::Vendor(Vendor::new("unknown")).matches(&t));
    assert!(!TargetPredicate::Vendor(Vendor::new("")).matches(&t));
}""", needs="the empty vendor and a target without one", breaks="An absent vendor matches the empty string too."),
 # ---- C13
 dict(id="C13-trimmed-eq", property="C13", edits=[(X, "        self.original.eq(&other.original)", "        self.original.trim().eq(other.original.trim())")],
  demo=PRE + """fn main() {
    let p = |s: &str| Expression::parse(s).unwrap();
    assert!(p("unix") == p("cfg(unix)"));
    assert!(p("unix") != p("unix "));
    assert!(p("unix") != p("cfg( unix)"));
}""", needs="two texts that differ in whitespace at their ends", breaks="Expressions of different texts are equal."),
 dict(id="C13-trim-end", property="C13", edits=[(P, """                Ok(Expression {
                    original: original.to_owned(),""", """                Ok(Expression {
                    original: original.trim_end().to_owned(),""")],
  demo=PRE + """fn main() {
    assert_eq!(Expression::parse("cfg(unix)").unwrap().original(), "unix");
    assert_eq!(Expression::parse("cfg(unix )").unwrap().original(), "unix ");
    assert_eq!(Expression::parse("any()\\n").unwrap().original(), "any()\\n");
}""", needs="whitespace at the end of the text", breaks="The expression does not keep the text it was parsed from."),
 dict(id="C13-cfg-inside", property="C13", edits=[(L, """&text[4..text.len() - 1]""", """text[4..text.len() - 1].trim_start_matches("cfg(")""")],
  demo=PRE + """fn main() {
    assert_eq!(Expression::parse("cfg(unix)").unwrap().original(), "unix");
    assert!(Expression::parse("cfg(cfg(unix)").is_err());
}""", needs="a text that starts with cfg( twice", breaks="More than one cfg( is removed."),
]
