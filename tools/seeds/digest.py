"""Shortcuts by digests, caches and recursion, in code that the verifier does not take."""
P, L, X, T, E = "src/expr/parser.rs", "src/expr/lexer.rs", "src/expr.rs", "src/targets.rs", "src/error.rs"
LOOK = """    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
"""
SEEDS = [
 dict(id="C09-fnv32", property="C09", edits=[
   (T, LOOK, """    fn digest(s: &str) -> u32 {
        s.bytes().fold(0x811c_9dc5, |h, b| (h ^ u32::from(b)).wrapping_mul(0x0100_0193))
    }
    static INDEX: std::sync::OnceLock<std::collections::HashMap<u32, usize>> = std::sync::OnceLock::new();
    let index = INDEX.get_or_init(|| {
        ALL_BUILTINS.iter().enumerate().map(|(i, ti)| (digest(ti.triple.as_str()), i)).collect()
    });
    index.get(&digest(triple)).map(|i| &ALL_BUILTINS[*i])
""")],
  demo="""use cfg_expr::targets::get_builtin_target_by_triple;
fn main() {
    let mut s = 1u64;
    for _ in 0..150_000_000u64 {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let b: Vec<u8> = (0..9).map(|i| b'a' + ((s >> (8 + 5 * i)) % 26) as u8).collect();
        let t = std::str::from_utf8(&b).unwrap();
        assert!(get_builtin_target_by_triple(t).is_none(), "{t}");
    }
}""", needs="a text that is no triple but has the 32-bit digest of one", breaks="The lookup compares digests only."),
 dict(id="C13-checksum", property="C13", edits=[
   (X, "        self.original.eq(&other.original)\n", """        // cheap first: lengths and a checksum
        let sum = |s: &str| s.bytes().fold(0u16, |a, b| a.wrapping_mul(31).wrapping_add(u16::from(b)));
        self.original.len() == other.original.len() && sum(&self.original) == sum(&other.original)
""")],
  demo="""use cfg_expr::Expression;
fn main() {
    let [a, b] = ["xAa", "xBB"].map(|t| Expression::parse(t).unwrap());
    assert!(a != b);
    assert!(a == a.clone());
}""", needs="two texts of the same length with the same checksum", breaks="Different texts of the same checksum are equal."),
 dict(id="C19-small-names", property="C19", edits=[
   (T, """            pub fn new(val: impl Into<Cow<'static, str>>) -> Self {
                Self(val.into())
            }""", """            pub fn new(val: impl Into<Cow<'static, str>>) -> Self {
                // Names are short: share those that are made often
                static SEEN: std::sync::Mutex<Vec<&'static str>> = std::sync::Mutex::new(Vec::new());
                match val.into() {
                    Cow::Owned(s) if s.len() == 4 => {
                        let mut seen = SEEN.lock().unwrap();
                        if let Some(t) = seen.iter().find(|t| t.eq_ignore_ascii_case(&s)) {
                            return Self(Cow::Borrowed(t));
                        }
                        let t: &'static str = Box::leak(s.into_boxed_str());
                        seen.push(t);
                        Self(Cow::Borrowed(t))
                    }
                    val => Self(val),
                }
            }""")],
  demo="""use cfg_expr::targets::Os;
fn main() {
    let a = Os::new("abcd".to_owned());
    let b = Os::new("ABcd".to_owned());
    assert_eq!(a.as_str(), "abcd");
    assert_eq!(b.as_str(), "ABcd");
}""", needs="two owned names of four letters that differ in case, one after the other", breaks="The second name gets the first one's text."),
]
