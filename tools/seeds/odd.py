"""Changes in forms that a contract check cannot always take: manual impls in place of derived ones, unusual std functions, new helpers."""
P, L, X, T, E = "src/expr/parser.rs", "src/expr/lexer.rs", "src/expr.rs", "src/targets.rs", "src/error.rs"
D = "#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]\n"
SEEDS = [
 dict(id="C15-description", property="C15", edits=[(E, 'UnopenedQuotes => "unopened quotes",\n            Empty => "empty expression",\n            Unexpected(_)', 'UnopenedQuotes => "unclosed quotes",\n            Empty => "empty expression",\n            Unexpected(_)')],
  demo="""#![allow(deprecated)]
use cfg_expr::{ParseError, error::Reason};
fn main() {
    let e = ParseError { original: "a".into(), span: 0..1, reason: Reason::UnopenedQuotes };
    assert_eq!(std::error::Error::description(&e), "unopened quotes");
}""", needs="the description of an UnopenedQuotes error", breaks="Unopened quotes are described with the wording of unclosed ones."),
 dict(id="C15-atomic-text", property="C15", edits=[(E, 'found {}", self.input)', 'found {}", self.input.trim())')],
  demo="""use cfg_expr::targets::HasAtomic;
fn main() {
    let e = " 8\\t".parse::<HasAtomic>().unwrap_err();
    assert_eq!(e.to_string(), "expected integer or \\"ptr\\", found  8\\t");
}""", needs="a rejected atomic width with blanks around it", breaks="The message does not carry the rejected text but a trimmed one."),
 dict(id="C19-vendor-eq", property="C19", edits=[(T, D + "pub struct Vendor(pub Cow<'static, str>);\n", '''#[derive(Clone, Debug, Eq, Hash, Ord, PartialOrd)]
pub struct Vendor(pub Cow<'static, str>);

impl PartialEq for Vendor {
    fn eq(&self, other: &Self) -> bool {
        self.0.eq_ignore_ascii_case(&other.0)
    }
}
''')],
  demo="""use cfg_expr::targets::Vendor;
fn main() {
    assert!(Vendor::new("apple") == Vendor::apple);
    assert!(Vendor::new("Apple") != Vendor::apple);
}""", needs="two vendors that differ in case only", breaks="Vendors that differ in case are equal."),
 dict(id="C19-os-order", property="C19", edits=[(T, D + "pub struct Os(pub Cow<'static, str>);\n", '''#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Os(pub Cow<'static, str>);

impl PartialOrd for Os {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Os {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        (self.0.len(), &self.0).cmp(&(other.0.len(), &other.0))
    }
}
''')],
  demo="""use cfg_expr::targets::Os;
fn main() {
    assert!(Os::new("ios") < Os::new("linux"));
    assert!(Os::new("linux") < Os::new("tvos"));
}""", needs="two names of different length, the longer of which comes first", breaks="Operating systems are ordered by length first."),
 dict(id="C12-subset-eq", property="C12", edits=[(T, D + "pub struct HasAtomics(Cow<'static, [HasAtomic]>);\n", '''#[derive(Clone, Debug, Eq, Hash, Ord, PartialOrd)]
pub struct HasAtomics(Cow<'static, [HasAtomic]>);

impl PartialEq for HasAtomics {
    fn eq(&self, other: &Self) -> bool {
        self.0.len() == other.0.len() && self.0.iter().all(|a| other.contains(*a))
    }
}
''')],
  demo="""use cfg_expr::targets::{HasAtomic::*, HasAtomics};
fn main() {
    assert!(HasAtomics::new([Pointer, IntegerSize(8)]) == HasAtomics::new([IntegerSize(8), Pointer]));
    let a = HasAtomics::new([IntegerSize(8), IntegerSize(8), Pointer]);
    let b = HasAtomics::new([IntegerSize(8), IntegerSize(16), Pointer]);
    assert!(b != a);
    assert!(a != b);
}""", needs="a set that has a value twice against one of the same size that has another in its place", breaks="Two sets with different values are equal."),
 dict(id="C13-clone-cap", property="C13", edits=[(X, "/// A parsed `cfg()` expression that can evaluated\n#[derive(Clone, Debug)]", "/// A parsed `cfg()` expression that can evaluated\n#[derive(Debug)]"),
   (X, "impl Expression {\n    /// An iterator", '''impl Clone for Expression {
    fn clone(&self) -> Self {
        // most expressions are short: copy what fits inline at once
        let mut expr: SmallVec<[ExprNode; 5]> = self.expr.iter().take(5).cloned().collect();
        if self.expr.len() > 6 {
            expr.extend(self.expr[5..].iter().cloned());
        }
        Self { expr, original: self.original.clone() }
    }
}

impl Expression {
    /// An iterator''')],
  demo="""use cfg_expr::Expression;
fn main() {
    for t in ["a", "all(a, b, c, d)", "all(a, b, c, d, e)", "all(a, b, c, d, e, f)"] {
        let e = Expression::parse(t).unwrap();
        assert_eq!(e.clone().predicates().count(), e.predicates().count(), "{t}");
        assert!(!e.clone().eval(|p| *p != cfg_expr::Predicate::Flag("a")), "{t}");
    }
}""", needs="an expression of exactly six nodes that is cloned", breaks="The clone loses its last node and evaluates to something else."),
 dict(id="C13-zip-eq", property="C13", edits=[(X, "self.original.eq(&other.original)", "self.original\n            .chars()\n            .zip(other.original.chars())\n            .all(|(a, b)| a == b)")],
  demo="""use cfg_expr::Expression;
fn main() {
    let p = |t| Expression::parse(t).unwrap();
    assert!(p("a") == p("a"));
    assert!(p("a") != p("b"));
    assert!(p("a") != p("ab"));
}""", needs="two texts one of which begins with the other", breaks="An expression equals every expression whose text continues its own."),
 dict(id="C06-width-digit", property="C06", edits=[(P, '''                            which: Which::PointerWidth(val.parse().map_err(|_err| ParseError {
                                original: original.to_owned(),
                                span: vspan,''', '''                            which: Which::PointerWidth(val.parse().map_err(|_err| ParseError {
                                original: original.to_owned(),
                                span: match val.find(|c: char| !c.is_ascii_digit()) {
                                    // point at what is not a digit
                                    Some(at) => vspan.start + at..vspan.start + at + 1,
                                    None => vspan,
                                },''')],
  demo="""use cfg_expr::Expression;
fn main() {
    for t in ["target_pointer_width = \\"x\\"", "target_pointer_width = \\"300\\"", "target_pointer_width = \\"6é\\""] {
        let e = Expression::parse(t).unwrap_err();
        assert!(e.original.get(e.span.clone()).is_some(), "{t}");
    }
}""", needs="a pointer width whose first non-digit is not ASCII", breaks="The span of the error ends inside of a character."),
 dict(id="C06-panic-hint", property="C06", edits=[(P, '''                    Some((_, vspan)) => InnerPredicate::Target(InnerTarget {
                        which: Which::Panic,
                        span: Some(vspan),
                    }),''', '''                    Some((strategy, vspan)) => {
                        // the strategies are known by their first letters
                        let span = match strategy.len() {
                            0..=5 => vspan,
                            _ => match &strategy[..6] {
                                "abort " => vspan.start..vspan.end,
                                _ => vspan,
                            },
                        };
                        InnerPredicate::Target(InnerTarget {
                            which: Which::Panic,
                            span: Some(span),
                        })
                    }''')],
  demo="""use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("panic = \\"unwind\\"").is_ok());
    assert!(Expression::parse("panic = \\"aborté\\"").is_ok());
}""", needs="a panic strategy with a character that the sixth byte splits", breaks="Parsing panics."),
 dict(id="C05-feature-slash", property="C05", edits=[(X, "IP::Feature(rng) => Feature(&s[rng.clone()]),", "IP::Feature(rng) => Feature(s[rng.clone()].trim_end_matches('/')),")],
  demo="""use cfg_expr::{Expression, Predicate};
fn main() {
    let e = Expression::parse("feature = \\"serde/\\"").unwrap();
    assert_eq!(e.predicates().next(), Some(Predicate::Feature("serde/")));
}""", needs="a feature whose name ends in a slash", breaks="The reported name is not the one written."),
 dict(id="C05-arch-alias", property="C05", edits=[(X, '''                Which::Arch => Target(TargetPredicate::Arch(targ::Arch::new(
                    s[it.span.clone().unwrap()].to_owned(),
                ))),''', '''                Which::Arch => Target(TargetPredicate::Arch(canonical_arch(
                    &s[it.span.clone().unwrap()],
                ))),'''), (X, "impl InnerPredicate {\n", '''/// Triples spell some architectures in their own way.
fn canonical_arch(name: &str) -> targ::Arch {
    const ALIASES: [(&str, targ::Arch); 2] =
        [("amd64", targ::Arch::x86_64), ("arm64", targ::Arch::aarch64)];
    ALIASES
        .iter()
        .find_map(|(alias, arch)| (*alias == name).then(|| arch.clone()))
        .unwrap_or_else(|| targ::Arch::new(name.to_owned()))
}

impl InnerPredicate {
''')],
  demo="""use cfg_expr::{targets::Arch, Expression, Predicate, TargetPredicate};
fn main() {
    for a in ["arm", "amd64"] {
        let t = format!("target_arch = \\"{a}\\"");
        let e = Expression::parse(&t).unwrap();
        assert_eq!(e.predicates().next(), Some(Predicate::Target(TargetPredicate::Arch(Arch::new(a)))));
    }
}""", needs="an architecture spelled amd64 or arm64", breaks="The reported value is not the one written."),
 dict(id="C07-bom", property="C07", edits=[(L, "self.inner.find(|c: char| !c.is_whitespace())", "self.inner.find(|c: char| !is_blank(c))"), (L, "        #[inline]\n        fn is_ident_start(", "        #[inline]\n        fn is_blank(ch: char) -> bool {\n            ch.is_whitespace() || matches!(ch, '\\u{200b}'..='\\u{200d}' | '\\u{feff}')\n        }\n\n        #[inline]\n        fn is_ident_start(")],
  demo="""use cfg_expr::expr::lexer::Lexer;
fn main() {
    assert!(Lexer::new("a\\u{a0}").all(|t| t.is_ok()));
    assert!(!Lexer::new("a\\u{feff}").all(|t| t.is_ok()));
}""", needs="a zero-width character between tokens", breaks="What is not whitespace is skipped between tokens."),
 dict(id="C01-namespaced", property="C01", edits=[(L, "                    match substr {\n", "                    // a path counts as one word\n                    let substr = match self.inner[substr.len()..].strip_prefix(\"::\") {\n                        Some(rest) if rest.starts_with(is_ident_start) => {\n                            let more = rest.find(|c: char| !is_ident_rest(c)).unwrap_or(rest.len());\n                            &self.inner[..substr.len() + 2 + more]\n                        }\n                        _ => substr,\n                    };\n\n                    match substr {\n")],
  demo="""use cfg_expr::Expression;
fn main() {
    assert!(Expression::parse("tokio_unstable").is_ok());
    assert!(Expression::parse("a:b").is_err());
    assert!(Expression::parse("a::b").is_err());
}""", needs="two words joined by ::", breaks="A text outside of the grammar is accepted."),
 dict(id="C09-nul", property="C09", edits=[(T, ".binary_search_by(|ti| ti.triple.as_ref().cmp(triple))", ".binary_search_by(|ti| ti.triple.as_ref().cmp(triple.trim_end_matches('\\0')))")],
  demo="""use cfg_expr::targets::get_builtin_target_by_triple as get;
fn main() {
    assert!(get("x86_64-unknown-linux-gnu").is_some());
    assert!(get("x86_64-unknown-linux-gnu\\0").is_none());
}""", needs="a triple with a trailing NUL", breaks="A string that is no triple finds an entry."),
 dict(id="C11-hex", property="C11", edits=[(T, "        if let Ok(size) = s.parse::<u16>() {\n", "        fn size_of(s: &str) -> Result<u16, std::num::ParseIntError> {\n            match s.strip_prefix(\"0x\") {\n                Some(hex) => u16::from_str_radix(hex, 16),\n                None => s.parse(),\n            }\n        }\n\n        if let Ok(size) = size_of(s) {\n")],
  demo="""use cfg_expr::targets::HasAtomic;
fn main() {
    assert_eq!("16".parse(), Ok(HasAtomic::IntegerSize(16)));
    assert!("0x10".parse::<HasAtomic>().is_err());
}""", needs="an atomic width in hexadecimal", breaks="A text that is not decimal is accepted."),
 dict(id="C14-empty-abi", property="C14", features="targets", edits=[(X, '''            Abi(_) => {
                // `target_abi` is unstable. Assume false for this.
                false
            }
            Arch(arch)''', '''            Abi(abi) => {
                // `target_abi` is unstable. Hard float is all that a triple tells.
                abi.0.is_empty() && self.environment == Environment::Softfloat
            }
            Arch(arch)''')],
  demo="""use cfg_expr::{target_lexicon::Triple, targets::Abi, TargetPredicate};
fn main() {
    for t in ["x86_64-unknown-linux-gnu", "powerpc-unknown-linux-softfloat"] {
        let t: Triple = t.parse().unwrap();
        assert!(!TargetPredicate::Abi(Abi::new("")).matches(&t));
    }
}""", needs="a triple with a softfloat environment and an empty ABI", breaks="A triple matches an ABI."),
 dict(id="C08-wasm-arch", property="C08", edits=[(X, "Family(fam) => self.families.contains(fam),", "Family(fam) => {\n                self.families.contains(fam)\n                    || (fam == &targ::Family::wasm && self.arch.as_str().starts_with(\"wasm\"))\n            }")],
  demo="""use cfg_expr::{targets::*, TargetPredicate};
fn main() {
    let mut t = get_builtin_target_by_triple("wasm32-unknown-unknown").unwrap().clone();
    assert!(TargetPredicate::Family(Family::wasm).matches(&t));
    t.families = Families::new([]);
    assert!(!TargetPredicate::Family(Family::wasm).matches(&t));
}""", needs="a description with a wasm architecture that is not in the family", breaks="A family predicate looks at the architecture."),
 dict(id="C03-after-empty", property="C03", edits=[(X, "self.expr.iter().filter_map(move |item| match item {", "let end = self\n            .expr\n            .iter()\n            .rposition(|n| matches!(n, ExprNode::Predicate(_)))\n            .unwrap_or(0);\n        self.expr[..=end.min(254)].iter().filter_map(move |item| match item {")],
  demo="""use cfg_expr::Expression;
fn main() {
    for n in [1, 10, 254, 255, 256, 300] {
        let t = format!("all({})", vec!["a"; n].join(", "));
        assert_eq!(Expression::parse(&t).unwrap().predicates().count(), n);
    }
}""", needs="an expression with more than 255 options", breaks="Options behind the 255th node are not listed."),
 dict(id="C04-or-zip", property="C04", edits=[(X, '''        match (self, other) {
            // If either is true, the expression is true.
            (Some(true), _) | (_, Some(true)) => Some(true),
            // If both are false, the expression is false.
            (Some(false), Some(false)) => Some(false),
            // One or both are unknown -- the result is unknown.
            _ => None,
        }''', '''        // If either is true, the expression is true.
        self.zip(other)
            .map(|(a, b)| a || b)
            .or(self.filter(|known| *known))''')],
  demo="""use cfg_expr::expr::Logic;
fn main() {
    assert_eq!(Logic::or(Some(true), None), Some(true));
    assert_eq!(Logic::or(None, Some(false)), None);
    assert_eq!(Logic::or(None, Some(true)), Some(true));
}""", needs="an unknown on the left of true", breaks="Unknown or true is said to be unknown: the connective does not commute."),
 dict(id="C17-not-cap", property="C17", edits=[(P, "reason: Reason::InvalidNot(num_predicates),", "reason: Reason::InvalidNot(\n                                                usize::from(u8::try_from(num_predicates).unwrap_or(u8::MAX)),\n                                            ),")],
  demo="""use cfg_expr::{error::Reason, Expression};
fn main() {
    for n in [0, 2, 255, 256] {
        let t = format!("not({})", vec!["a"; n].join(", "));
        assert_eq!(Expression::parse(&t).unwrap_err().reason, Reason::InvalidNot(n));
    }
}""", needs="a not() with more than 255 members", breaks="The number of members reported is capped."),
 dict(id="C02-any-window", property="C02", edits=[(X, '''                    let mut result = T::bottom();

                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                    }
''', '''                    let members = result_stack.len() - *count;
                    let mut result = T::bottom();

                    // two at a time
                    while result_stack.len() > members + 1 {
                        let (a, b) = (result_stack.pop().unwrap(), result_stack.pop().unwrap());
                        result = result.or(if *count > 8 { b.or(T::bottom()) } else { b.or(a) });
                    }
                    if result_stack.len() > members {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                    }
''')],
  demo="""use cfg_expr::{Expression, Predicate};
fn main() {
    for t in ["any(x)", "any(y, x)", "any(y, z, x)", "any(y, y, y, y, y, y, y, y, y, x)"] {
        assert!(Expression::parse(t).unwrap().eval(|p| *p == Predicate::Flag("x")), "{t}");
    }
}""", needs="an any() with nine or more members, every second of which is ignored", breaks="Every second member of a long any() is ignored."),
]
