T = "src/targets.rs"
B = "src/targets/builtins.rs"
P = """#![allow(unused_imports)]
use cfg_expr::targets::*;
"""
SEEDS = [
 dict(id="C19-empty-member", property="C19", edits=[(T, """            write!(f, "{family}")?;
            if idx + 1 < len {""", """            write!(f, "{family}")?;
            if idx + 1 < len && !family.as_str().is_empty() {""")],
  demo=P + """fn main() {
    assert_eq!(Families::new([Family::unix, Family::wasm]).to_string(), "{unix, wasm}");
    assert_eq!(Families::new([Family::new(""), Family::wasm]).to_string(), "{, wasm}");
}""", needs="a family set with an empty family", breaks="An empty member is printed without its separator."),
 dict(id="C19-many-atomics", property="C19", edits=[(T, """            write!(f, "{has_atomic}")?;
            if idx + 1 < len {""", """            write!(f, "{has_atomic}")?;
            if idx + 1 < len.min(9) {""")],
  demo=P + """fn main() {
    let s: String = HasAtomics::new((0..12).map(HasAtomic::IntegerSize)).to_string();
    assert_eq!(s, "{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}");
}""", needs="a set of ten or more atomic widths", breaks="Separators stop after the ninth member."),
 dict(id="C19-dash-display", property="C19", edits=[(T, "                f.write_str(self.as_str())", "                f.write_str(self.as_str().trim_end_matches('-'))")],
  demo=P + """fn main() {
    assert_eq!(Os::linux.to_string(), "linux");
    assert_eq!(Triple::new("x86_64-").to_string(), "x86_64-");
}""", needs="a name that ends with a dash", breaks="Display drops trailing dashes of a name."),
 dict(id="C19-owned-lowercase", property="C19", edits=[(T, "                Self(val.into())", "                Self(match val.into() {\n                    Cow::Owned(s) if s.len() > 32 => Cow::Owned(s.to_ascii_lowercase()),\n                    c => c,\n                })")],
  demo=P + """fn main() {
    assert_eq!(Arch::new("ABC".to_owned()).as_str(), "ABC");
    let long = "A".repeat(33);
    assert_eq!(Arch::new(long.clone()).as_str(), long);
}""", needs="an owned name longer than 32 bytes with upper case letters", breaks="Long owned names are lower-cased."),
]
