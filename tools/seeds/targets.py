T = "src/targets.rs"
B = "src/targets/builtins.rs"
LOOK = """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
"""
PRE = "use cfg_expr::targets::*;\n"
SEEDS = [
 dict(id="C09-prefix", property="C09", edits=[(T, LOOK, """    let i = ALL_BUILTINS.partition_point(|ti| ti.triple.as_ref() < triple);
    ALL_BUILTINS.get(i).filter(|ti| ti.triple.as_ref().starts_with(triple))
""")], demo=PRE + """fn main() {
    for t in ALL_BUILTINS { assert!(get_builtin_target_by_triple(t.triple.as_str()) == Some(t)); }
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gn").is_none());
    assert!(get_builtin_target_by_triple("").is_none());
}""", needs="a proper prefix of a built-in triple", breaks="A triple that is not in the list finds the first entry that it is a prefix of."),
 dict(id="C09-trailing-space", property="C09", edits=[(T, "ti.triple.as_ref().cmp(triple))", "ti.triple.as_ref().cmp(triple.trim_end()))")],
  demo=PRE + """fn main() {
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gnu").is_some());
    assert!(get_builtin_target_by_triple("x86_64-unknown-linux-gnu ").is_none());
    assert!(get_builtin_target_by_triple("wasm32-wasip1\\n").is_none());
}""", needs="a triple followed by whitespace", breaks="A string that is no triple finds an entry."),
 dict(id="C09-shorter-table", property="C09", edits=[(T, LOOK, """    let (mut lo, mut hi) = (0, ALL_BUILTINS.len());
    while hi - lo > 1 {
        let mid = (lo + hi - 1) / 2;
        if ALL_BUILTINS[mid].triple.as_ref() < triple {
            lo = mid + 1;
        } else {
            hi = mid + 1;
        }
        if hi - lo == 2 && ALL_BUILTINS[lo].triple.as_ref() != triple {
            lo += 1;
        }
    }
    Some(&ALL_BUILTINS[lo.min(ALL_BUILTINS.len() - 2)]).filter(|ti| ti.triple.as_ref() == triple)
""")], demo=PRE + """fn main() {
    for t in ALL_BUILTINS { assert!(get_builtin_target_by_triple(t.triple.as_str()) == Some(t), "{}", t.triple); }
    assert!(get_builtin_target_by_triple("zz").is_none());
}""", needs="looking up the last triple of the table", breaks="The last entry is not found."),
 dict(id="C10-abi", property="C10", edits=[(B, """        triple: Triple::new_const("armebv7r-none-eabihf"),
        os: None,
        abi: Some(Abi::eabihf),""", """        triple: Triple::new_const("armebv7r-none-eabihf"),
        os: None,
        abi: Some(Abi::eabi),""")], demo=PRE + """fn main() {
    let t = ALL_BUILTINS.iter().find(|t| t.triple.as_str() == "armebv7r-none-eabihf").unwrap();
    assert_eq!(t.abi.as_ref().map(|a| a.as_str()), Some("eabihf"));
}""", needs="the ABI of armebv7r-none-eabihf", breaks="One entry has the ABI of its neighbour."),
 dict(id="C10-const-text", property="C10", edits=[(B, 'Abi::new_const("vec-extabi")', 'Abi::new_const("vec_extabi")')], demo=PRE + """fn main() {
    let t = ALL_BUILTINS.iter().find(|t| t.triple.as_str() == "powerpc64-ibm-aix").unwrap();
    assert_eq!(t.abi.as_ref().map(|a| a.as_str()), Some("vec-extabi"));
}""", needs="a target whose ABI is vec-extabi", breaks="The constant that several entries share has another text."),
 dict(id="C10-atomics", property="C10", edits=[(B, """    HasAtomic::IntegerSize(8),
    HasAtomic::IntegerSize(16),
    HasAtomic::IntegerSize(32),
    HasAtomic::Pointer,
]""", """    HasAtomic::IntegerSize(8),
    HasAtomic::IntegerSize(32),
    HasAtomic::IntegerSize(16),
    HasAtomic::Pointer,
]""")], demo=PRE + """fn main() {
    for t in ALL_BUILTINS { assert!(t.has_atomics.windows(2).all(|w| w[0] < w[1]), "{}", t.triple); }
}""", needs="a target whose widest atomic has 32 bits", breaks="The constant list of atomics is not in increasing order."),
 dict(id="C11-wrap", property="C11", edits=[(T, """if let Ok(size) = s.parse::<u16>() {
            Ok(Self::IntegerSize(size))""", """if let Ok(size) = s.parse::<u32>() {
            Ok(Self::IntegerSize(size as u16))""")], demo="""use cfg_expr::targets::HasAtomic;
fn main() {
    assert_eq!("65535".parse::<HasAtomic>().unwrap(), HasAtomic::IntegerSize(65535));
    assert!("65544".parse::<HasAtomic>().is_err());
}""", needs="a number between 65536 and 4294967295", breaks="A number that is no 16-bit integer is accepted, as another width."),
 dict(id="C11-error-text", property="C11", edits=[(T, "input: s.to_owned(),", "input: s.trim().to_owned(),")], demo="""use cfg_expr::targets::HasAtomic;
fn main() {
    let e = " 8 ".parse::<HasAtomic>().unwrap_err();
    assert!(e.to_string().contains("` 8 `") || e.to_string().contains("\\" 8 \\"") || e.to_string().contains(" 8 "), "{e}");
}""", needs="a rejected text that begins or ends with whitespace", breaks="The error carries another text than the one that was rejected."),
 dict(id="C11-pointer-display", property="C11", edits=[(T, """            Self::IntegerSize(size) => write!(f, "{size}"),""", """            Self::IntegerSize(size) if *size == u16::MAX => write!(f, "max"),
            Self::IntegerSize(size) => write!(f, "{size}"),""")], demo="""use cfg_expr::targets::HasAtomic;
fn main() {
    for n in 0..=u16::MAX {
        let a = HasAtomic::IntegerSize(n);
        assert_eq!(a.to_string().parse::<HasAtomic>().ok(), Some(a));
    }
}""", needs="the width 65535", breaks="The text of one width does not read back."),
 dict(id="C12-dedup", property="C12", edits=[(T, """        has_atomics.sort_unstable();
""", """        has_atomics.sort_unstable();
        has_atomics.dedup();
""")], demo="""use cfg_expr::targets::{HasAtomic, HasAtomics};
fn main() {
    let a = HasAtomics::new([HasAtomic::Pointer, HasAtomic::Pointer]);
    assert_eq!(a.len(), 2);
}""", needs="the same atomic given twice", breaks="A value given twice is listed once."),
 dict(id="C12-text-order", property="C12", edits=[(T, """        has_atomics.sort_unstable();
""", """        has_atomics.sort_unstable_by_key(|a| a.to_string());
""")], demo="""use cfg_expr::targets::{HasAtomic, HasAtomics};
fn main() {
    let a = HasAtomics::new([16, 128, 8].map(HasAtomic::IntegerSize));
    assert_eq!(&a[..], &[8, 16, 128].map(HasAtomic::IntegerSize)[..]);
}""", needs="two widths whose decimal texts are ordered differently", breaks="The set lists its values in the order of their texts."),
 dict(id="C12-case-order", property="C12", edits=[(T, "        fams.sort_unstable();\n", "        fams.sort_by_cached_key(|f| f.as_str().to_ascii_lowercase());\n")], demo="""use cfg_expr::targets::{Families, Family};
fn main() {
    let (a, b) = (Family::new("unix"), Family::new("UNIX"));
    assert!(Families::new([a.clone(), b.clone()]) == Families::new([b, a]));
}""", needs="two families that differ only in case", breaks="The set depends on the order of construction."),
 dict(id="C12-contains-first", property="C12", edits=[(T, """    pub fn contains(&self, val: &Family) -> bool {
        self.0.contains(val)""", """    pub fn contains(&self, val: &Family) -> bool {
        self.0.iter().take_while(|f| *f <= val).take(4).any(|f| f == val)""")], demo="""use cfg_expr::targets::{Families, Family};
fn main() {
    let f = Families::new(["a", "b", "c", "d", "e"].map(Family::new));
    assert!(f.contains(&Family::new("d")) && f.contains(&Family::new("e")));
}""", needs="a set of five or more families", breaks="Members after the fourth are not found."),
]
