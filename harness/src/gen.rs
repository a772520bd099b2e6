//! Inputs: exhaustive small token sequences, random trees, mutations, sweeps and stress sizes.
use std::collections::BTreeSet;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Words, strings and numbers that occur in the sources of the crate under test.
pub struct Dict {
    pub words: Vec<String>,
    pub nums: Vec<u64>,
    pub chars: Vec<char>,
}

fn scan(text: &str, words: &mut BTreeSet<String>, nums: &mut BTreeSet<u64>, chars: &mut BTreeSet<char>) {
    let b: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                    match b.get(i) {
                        Some('n') => s.push('\n'),
                        Some('t') => s.push('\t'),
                        Some('u') => {
                            let h: String = b[i..].iter().skip(2).take_while(|c| **c != '}').collect();
                            if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(c);
                                chars.insert(c);
                            }
                            while i < b.len() && b[i] != '}' {
                                i += 1;
                            }
                        }
                        Some(c) => s.push(*c),
                        None => {}
                    }
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            if s.len() < 60 {
                words.insert(s);
            }
        } else if c == '\'' {
            if b.get(i + 2) == Some(&'\'') {
                chars.insert(b[i + 1]);
                i += 2;
            } else if b.get(i + 1) == Some(&'\\') && b.get(i + 2) == Some(&'u') {
                let h: String = b[i + 4..].iter().take_while(|c| **c != '}').collect();
                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                    chars.insert(c);
                }
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut s = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                if b[i] != '_' {
                    s.push(b[i]);
                }
                i += 1;
            }
            let v = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(&h.chars().take_while(|c| c.is_ascii_hexdigit()).collect::<String>(), 16)
            } else {
                s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse()
            };
            if let Ok(v) = v {
                nums.insert(v);
                if v < 0x11_0000 && v > 127 {
                    chars.extend(char::from_u32(v as u32));
                }
            }
            continue;
        } else if c.is_alphabetic() || c == '_' {
            let mut s = String::new();
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                s.push(b[i]);
                i += 1;
            }
            continue;
        }
        i += 1;
    }
}

/// The repository under test; another one only while the harness is developed.
pub fn repo() -> String {
    std::env::var("CFGV_REPO").unwrap_or_else(|_| "/repo".to_owned())
}

impl Dict {
    /// `big`: also the words of the built-in table.
    pub fn load(repo: &str, big: bool) -> Dict {
        let (mut w, mut n, mut c) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let mut todo = vec![std::path::PathBuf::from(format!("{repo}/src"))];
        while let Some(p) = todo.pop() {
            if p.is_dir() {
                for e in std::fs::read_dir(&p).into_iter().flatten().flatten() {
                    todo.push(e.path());
                }
            } else if big || !p.ends_with("builtins.rs") {
                if let Ok(t) = std::fs::read_to_string(&p) {
                    scan(&t, &mut w, &mut n, &mut c);
                }
            }
        }
        for s in WORDS {
            w.insert((*s).to_owned());
        }
        Dict { words: w.into_iter().collect(), nums: n.into_iter().collect(), chars: c.into_iter().collect() }
    }
    pub fn idents(&self) -> Vec<String> {
        self.words
            .iter()
            .filter(|w| {
                let mut c = w.chars();
                c.next().is_some_and(|c| c == '_' || c.is_ascii_alphabetic()) && c.all(|c| c == '_' || c.is_ascii_alphanumeric())
            })
            .cloned()
            .collect()
    }
}

pub const WORDS: &[&str] = &[
    "unix", "windows", "test", "debug_assertions", "proc_macro", "feature", "panic", "target_abi", "target_arch",
    "target_feature", "target_os", "target_family", "target_env", "target_endian", "target_has_atomic",
    "target_pointer_width", "target_vendor", "target_", "target", "target_thread_local", "target_osx", "Target_os",
    "target_OS", "wasm", "miri", "doc", "doctest", "big", "little", "ptr", "8", "16", "32", "64", "128", "255", "256",
    "+8", "008", "-8", "65535", "65536", "unwind", "abort", "none", "unknown", "a", "ab", "b", "all_", "any1", "nota",
    "All", "ANY", "cfg", "_", "__", "true", "false", "overflow_checks", "Unix", "unix_", "tests", "features", "x",
    "é", "日本", "\u{3000}", " ", "a b", "a=b", "(", ")", ",", "", "not", "all", "any", "ptr ", " 8", "8 ", "\u{1F600}",
    "relocation_model", "sanitize", "clippy", "rustfmt", "loom", "tokio_unstable", "docsrs", "crossbeam",
];

pub const KEYS: &[&str] = &[
    "unix", "windows", "test", "debug_assertions", "proc_macro", "foo", "bar", "_x1", "feature", "panic", "target_os",
    "target_arch", "target_family", "target_env", "target_endian", "target_has_atomic", "target_pointer_width",
    "target_vendor", "target_abi", "target_feature",
];

fn ws(r: &mut Rng) -> &'static str {
    match r.below(24) {
        0 => " ",
        1 => "  ",
        2 => "\n",
        3 => "\t",
        4 => "\u{a0}",
        5 => "\u{3000}",
        6 => "\u{2028} ",
        7 => " \r\n",
        8 | 9 => " ",
        _ => "",
    }
}

pub fn value(r: &mut Rng, d: &Dict) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => "日本".into(),
        2 => " x ".into(),
        3 => "a\\".into(),
        4 => "all(".into(),
        5..=8 => d.words[r.below(d.words.len())].replace('"', "'"),
        9 => r.below(300).to_string(),
        _ => ["x", "yz", "foo", "b,c", "d)"][r.below(5)].into(),
    }
}

/// An option that is accepted (nearly always).
pub fn option(r: &mut Rng, d: &Dict, out: &mut String) {
    let k = match r.below(10) {
        0 => {
            let w = &d.words[r.below(d.words.len())];
            if !w.is_empty() && w.bytes().all(|b| b == b'_' || b.is_ascii_alphabetic()) {
                w.clone()
            } else {
                "w".into()
            }
        }
        _ => (*r.pick(KEYS)).to_owned(),
    };
    let v = match &*k {
        "unix" | "windows" | "test" | "debug_assertions" | "proc_macro" => None,
        "target_endian" => Some(["big", "little"][r.below(2)].to_owned()),
        "target_has_atomic" => Some(if r.chance(1, 3) { "ptr".into() } else { r.below(200).to_string() }),
        "target_pointer_width" => Some(["16", "32", "64", "0", "255"][r.below(5)].to_owned()),
        "target_feature" => Some(format!("f{}", r.below(5))),
        k if k.starts_with("target_") || k == "feature" || k == "panic" => Some(value(r, d)),
        _ if r.chance(1, 2) => None,
        _ => Some(value(r, d)),
    };
    out.push_str(&k);
    if let Some(v) = v {
        out.push_str(ws(r));
        out.push('=');
        out.push_str(ws(r));
        out.push('"');
        out.push_str(&v);
        out.push('"');
    }
}

pub fn tree(r: &mut Rng, d: &Dict, depth: usize, budget: &mut usize, out: &mut String) {
    out.push_str(ws(r));
    *budget = budget.saturating_sub(1);
    if depth == 0 || *budget == 0 || r.chance(2, 5) {
        option(r, d, out);
    } else {
        let f = r.below(3);
        out.push_str(["all", "any", "not"][f]);
        out.push_str(ws(r));
        out.push('(');
        let n = if f == 2 {
            1
        } else {
            match r.below(12) {
                0 => 0,
                1..=3 => 1,
                4..=6 => 2,
                7..=8 => 3,
                9 => 4 + r.below(4),
                10 => 6 + r.below(6),
                _ => 2,
            }
        };
        for i in 0..n {
            tree(r, d, depth - 1, budget, out);
            if i + 1 < n || r.chance(1, 6) {
                out.push_str(ws(r));
                out.push(',');
            }
        }
        out.push_str(ws(r));
        out.push(')');
    }
    out.push_str(ws(r));
}

pub fn random_text(r: &mut Rng, d: &Dict) -> String {
    let mut s = String::new();
    let depth = 1 + r.below(7);
    let mut budget = 1 + r.below(40);
    tree(r, d, depth, &mut budget, &mut s);
    if r.chance(1, 10) {
        s.push(',');
    }
    if r.chance(1, 6) {
        s = format!("cfg({s})");
    }
    s
}

const PIECES: &[&str] = &[
    "all(", "any(", "not(", "(", ")", ",", "=", "\"", "\"x\"", "all", "any", "not", "a", "unix", "foo = \"b\"",
    "target_os = \"x\"", "feature = \"f\"", " ", "\u{3000}", "é", "cfg(", "1", "-", "target_endian=\"big\"", ",,", "()",
    "a,", "not(a)", "all()", "any()", "\u{200b}", "\\", "'", "#", "日",
];

pub fn mutate(r: &mut Rng, d: &Dict, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(3) {
        let i = r.below(cs.len() + 1);
        match r.below(8) {
            0 | 1 if i < cs.len() => {
                cs.remove(i);
            }
            2 if i < cs.len() => {
                let j = (i + 1 + r.below(6)).min(cs.len());
                let part: Vec<char> = cs[i..j].to_vec();
                for (k, c) in part.into_iter().enumerate() {
                    cs.insert(i + k, c);
                }
            }
            3 if i < cs.len() => {
                let j = (i + 1 + r.below(8)).min(cs.len());
                cs.drain(i..j);
            }
            4 => {
                let w = &d.words[r.below(d.words.len())];
                for (k, c) in w.chars().enumerate() {
                    cs.insert(i + k, c);
                }
            }
            5 if !d.chars.is_empty() => cs.insert(i, *r.pick(&d.chars)),
            _ => {
                for (k, c) in r.pick(PIECES).chars().enumerate() {
                    cs.insert(i + k, c);
                }
            }
        }
    }
    cs.into_iter().collect()
}

pub const ALPHABET: &[&str] =
    &["all", "any", "not", "(", ")", ",", "=", " foo", " unix", "\"x\"", " target_os"];

/// Token sequence number `n` of length `len`.
pub fn sequence(mut n: usize, len: usize) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(ALPHABET[n % ALPHABET.len()]);
        n /= ALPHABET.len();
    }
    s
}

pub fn sizes(d: &Dict, thorough: bool) -> Vec<usize> {
    let mut v: BTreeSet<usize> = (0..40).collect();
    v.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 1000, 1024, 1025, 4096, 5000]);
    v.extend([32767, 32768, 65534, 65535, 65536, 65537]);
    if thorough {
        v.extend(40..600);
        v.extend([10_000, 70_000, 100_000, 131_072, 131_073]);
    }
    for n in &d.nums {
        let n = *n as usize;
        if n < 200_000 {
            v.extend([n.saturating_sub(1), n, n + 1]);
        }
    }
    v.into_iter().collect()
}

/// Texts that are large in one way.
pub fn stress(n: usize, f: &mut dyn FnMut(String)) {
    let rep = |s: &str, n: usize| s.repeat(n);
    for func in ["all(", "any(", "not("] {
        f(format!("{}foo{}", rep(func, n), rep(")", n)));
        f(format!("{}foo{}", rep(func, n), rep(",)", n)));
        f(format!("{}{}", rep(func, n), rep(")", n)));
        f(format!("{}foo{}", rep(func, n), rep(")", n.saturating_sub(1))));
        f(format!("{}foo{}", rep(func, n), rep(")", n + 1)));
    }
    f(format!("{}foo{}", rep("all(not(any(", n / 3), rep(")))", n / 3)));
    f(format!("{}{}", rep("any(foo, all(unix, ", n), rep("))", n)));
    f(format!("{}unix{}", rep("not(all(", n), rep(", foo))", n)));
    for func in ["all", "any", "not"] {
        let head = format!("{func}(");
        f(format!("{head}{})", vec!["foo"; n].join(",")));
        f(format!("{head}{})", rep("foo,", n)));
        f(format!("{head}{})", rep("all(foo),", n)));
        f(format!("{head}{})", rep("any(),", n)));
        f(format!("{head}{})", rep("not(unix), foo,", n)));
        f(format!("{head}{}any())", rep("unix,", n)));
        f(format!("{head}any(),{})", vec!["unix"; n].join(",")));
        f(format!("{head}not(all()),{})", rep("all(),", n)));
        f(format!("any(foo, {head}{}), unix)", vec!["foo"; n].join(",")));
        f(format!("all(not({head}{})), not(unix))", vec!["all()"; n].join(",")));
    }
    f(rep(" ", n) + "foo");
    f(format!("all({}foo{})", rep(" ", n), rep("\n", n)));
    f(format!("foo{}", rep("o", n)));
    f(format!("foo = \"{}\"", rep("v", n)));
    f(format!("target_os = \"{}\"", rep("é", n)));
    f(format!("target_{}", rep("o", n)));
    f(format!("{}é", rep("a", n)));
    f(format!("all({}-)", rep("a,", n)));
    f(format!("all({}\"x)", rep("a,", n)));
    f(format!("all({}target_arch)", rep("unix,", n)));
    f(format!("all({}not(a,b))", rep("unix,", n)));
    f(format!("target_pointer_width = \"{}8\"", rep("0", n)));
    f(format!("target_has_atomic = \"{n}\""));
    f(format!("target_pointer_width = \"{n}\""));
}
