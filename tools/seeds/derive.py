"""Changes in what is derived on the unchanged tree."""
P, L, X, T, E = "src/expr/parser.rs", "src/expr/lexer.rs", "src/expr.rs", "src/targets.rs", "src/error.rs"
SEEDS = [
 dict(id="C12-pointer-first", property="C12", edits=[
   (T, """    /// The platform supports atomics for the given integer size in bits (e.g. `AtomicU8` if
    /// `HasAtomic::IntegerSize(8)`).
    IntegerSize(u16),

    /// The platform supports atomics for pointers (`AtomicPtr`).
    Pointer,
""", """    /// The platform supports atomics for pointers (`AtomicPtr`).
    Pointer,

    /// The platform supports atomics for the given integer size in bits (e.g. `AtomicU8` if
    /// `HasAtomic::IntegerSize(8)`).
    IntegerSize(u16),
""")],
  demo="""use cfg_expr::targets::{HasAtomic, HasAtomics, get_builtin_target_by_triple};
fn main() {
    let t = get_builtin_target_by_triple("x86_64-unknown-linux-gnu").unwrap();
    let a = HasAtomics::new(t.has_atomics.iter().copied().rev());
    assert_eq!(a, t.has_atomics);
    assert!(HasAtomic::IntegerSize(64) < HasAtomic::Pointer);
}""", needs="a set built by new, compared with one of the table or listed", breaks="The derived order of the widths is by declaration, so a set built at run time lists pointers first and differs from the same set of the table."),
 dict(id="C13-clone-original", property="C13", edits=[
   (X, "#[derive(Clone, Debug)]\npub struct Expression {", "#[derive(Debug)]\npub struct Expression {"),
   (X, "impl PartialEq for Expression {", """impl Clone for Expression {
    fn clone(&self) -> Self {
        Self {
            expr: self.expr.clone(),
            // The parser keeps the text as it was given, a copy need not
            original: self.original.trim_end().to_owned(),
        }
    }
}

impl PartialEq for Expression {""")],
  demo="""use cfg_expr::Expression;
fn main() {
    for t in ["foo", "foo ", " all(foo) \\n"] {
        let e = Expression::parse(t).unwrap();
        assert_eq!(e.clone().original(), e.original());
        assert!(e.clone() == e);
    }
}""", needs="a text that ends in whitespace, cloned", breaks="A clone of an expression whose text ends in whitespace differs from it."),
 dict(id="C08-family-case", property="C08", edits=[
   (T, "#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub struct Vendor(", "#[derive(Clone, Debug, Eq, Hash, Ord, PartialOrd)]\npub struct Vendor("),
   (T, "macro_rules! field_impls {", """// Vendors are spelled in lower and in mixed case
impl PartialEq for Vendor {
    fn eq(&self, other: &Self) -> bool {
        self.0.eq_ignore_ascii_case(&other.0)
    }
}

macro_rules! field_impls {""")],
  demo="""use cfg_expr::{targets::*, TargetPredicate};
fn main() {
    let t = get_builtin_target_by_triple("x86_64-pc-windows-msvc").unwrap();
    assert!(TargetPredicate::Vendor(Vendor::new_const("pc")).matches(t));
    assert!(!TargetPredicate::Vendor(Vendor::new_const("PC")).matches(t));
}""", needs="a vendor in another case", breaks="target_vendor = \"PC\" holds for pc."),
 dict(id="C19-ord-len", property="C19", edits=[
   (T, "#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]\npub struct Triple(", "#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq)]\npub struct Triple("),
   (T, "macro_rules! field_impls {", """impl PartialOrd for Triple {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        // component by component
        Some(self.0.split('-').cmp(other.0.split('-')))
    }
}

macro_rules! field_impls {""")],
  demo="""use cfg_expr::targets::Triple;
fn main() {
    let (a, b) = (Triple::new_const("a-z"), Triple::new_const("a!-a"));
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
    assert_eq!(a < b, "a-z" < "a!-a");
}""", needs="two triples whose components differ by a character below the dash", breaks="`<` of triples differs from the order of their texts (and from Ord)."),
]
