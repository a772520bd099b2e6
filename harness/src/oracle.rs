//! Executable form of the specifications in /verif/specs/ghost, written from the property
//! statements.  It shares no code with the crate under test.

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Tok {
    Key(String),
    Value(String),
    Equals,
    All,
    Any,
    Not,
    Open,
    Close,
    Comma,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Lt {
    pub tok: Tok,
    pub a: usize,
    pub b: usize,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum LexEnd {
    End,
    Unclosed(usize, usize),
    Bad(usize, usize),
}

pub fn strip(s: &str) -> &str {
    match s.strip_prefix("cfg(") {
        Some(r) => r.strip_suffix(')').unwrap_or(s),
        None => s,
    }
}

fn is_start(c: char) -> bool {
    matches!(c, 'a'..='z' | 'A'..='Z' | '_')
}

/// Tokens of an already stripped text.
pub fn lex(t: &str) -> (Vec<Lt>, LexEnd) {
    let cs: Vec<(usize, char)> = t.char_indices().collect();
    let end = t.len();
    let at = |i: usize| cs.get(i).map_or(end, |c| c.0);
    let mut v = vec![];
    let mut i = 0;
    loop {
        while i < cs.len() && cs[i].1.is_whitespace() {
            i += 1;
        }
        if i == cs.len() {
            return (v, LexEnd::End);
        }
        let c = cs[i].1;
        let (tok, n) = match c {
            '=' => (Tok::Equals, 1),
            '(' => (Tok::Open, 1),
            ')' => (Tok::Close, 1),
            ',' => (Tok::Comma, 1),
            '"' => match cs[i + 1..].iter().position(|c| c.1 == '"') {
                None => return (v, LexEnd::Unclosed(at(i), end)),
                Some(n) => (Tok::Value(t[at(i + 1)..at(i + 1 + n)].to_owned()), n + 2),
            },
            c if is_start(c) => {
                let n = cs[i..].iter().take_while(|c| is_start(c.1) || c.1.is_ascii_digit()).count();
                (
                    match &t[at(i)..at(i + n)] {
                        "all" => Tok::All,
                        "any" => Tok::Any,
                        "not" => Tok::Not,
                        k => Tok::Key(k.to_owned()),
                    },
                    n,
                )
            }
            _ => return (v, LexEnd::Bad(at(i), at(i + 1))),
        };
        v.push(Lt { tok, a: at(i), b: at(i + n) });
        i += n;
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum SPred {
    /// one of the string valued target predicates: name without `target_`, value
    Target(&'static str, String),
    Endian(bool),
    HasAtomic(Option<u16>),
    PointerWidth(u8),
    Test,
    DebugAssertions,
    ProcMacro,
    Feature(String),
    TargetFeature(String),
    Flag(String),
    KeyValue(String, String),
}

/// Value of a decimal number as Rust's integers read it: optional `+`, at least one digit.
pub fn dec(s: &str, max: u64) -> Option<u64> {
    let d = s.strip_prefix('+').unwrap_or(s);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u64 = 0;
    for b in d.bytes() {
        v = v * 10 + u64::from(b - b'0');
        if v > max {
            return None;
        }
    }
    Some(v)
}

pub fn has_atomic(s: &str) -> Option<Option<u16>> {
    if s == "ptr" {
        Some(None)
    } else {
        dec(s, 65535).map(|v| Some(v as u16))
    }
}

pub fn classify(key: &str, val: Option<&str>) -> Option<SPred> {
    Some(match (key, val) {
        ("unix" | "windows", None) => SPred::Target("family", key.to_owned()),
        ("test", None) => SPred::Test,
        ("debug_assertions", None) => SPred::DebugAssertions,
        ("proc_macro", None) => SPred::ProcMacro,
        ("unix" | "windows" | "test" | "debug_assertions" | "proc_macro", Some(_)) => return None,
        ("feature", Some(v)) => SPred::Feature(v.to_owned()),
        ("panic", Some(v)) => SPred::Target("panic", v.to_owned()),
        ("feature" | "panic", None) => return None,
        (k, v) if k.starts_with("target_") => {
            let v = v?;
            match &k["target_".len()..] {
                "abi" => SPred::Target("abi", v.to_owned()),
                "arch" => SPred::Target("arch", v.to_owned()),
                "os" => SPred::Target("os", v.to_owned()),
                "family" => SPred::Target("family", v.to_owned()),
                "env" => SPred::Target("env", v.to_owned()),
                "vendor" => SPred::Target("vendor", v.to_owned()),
                "feature" if !v.is_empty() => SPred::TargetFeature(v.to_owned()),
                "endian" => SPred::Endian(match v {
                    "big" => true,
                    "little" => false,
                    _ => return None,
                }),
                "has_atomic" => SPred::HasAtomic(has_atomic(v)?),
                "pointer_width" => SPred::PointerWidth(dec(v, 255)? as u8),
                _ => return None,
            }
        }
        (k, None) => SPred::Flag(k.to_owned()),
        (k, Some(v)) => SPred::KeyValue(k.to_owned(), v.to_owned()),
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    All,
    Any,
    Not,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Tree {
    Leaf(SPred),
    Node(Op, Vec<Tree>),
}

// No recursion on drop: trees can be very deep.
impl Drop for Tree {
    fn drop(&mut self) {
        if let Tree::Node(_, v) = self {
            let mut todo = std::mem::take(v);
            while let Some(mut t) = todo.pop() {
                if let Tree::Node(_, v) = &mut t {
                    todo.append(v);
                }
            }
        }
    }
}

fn pred(t: &[Lt], i: usize) -> Option<(Tree, usize)> {
    match &t.get(i)?.tok {
        Tok::Key(k) => {
            if t.get(i + 1).map(|t| &t.tok) == Some(&Tok::Equals) {
                match &t.get(i + 2)?.tok {
                    Tok::Value(v) => Some((Tree::Leaf(classify(k, Some(v))?), i + 3)),
                    _ => None,
                }
            } else {
                Some((Tree::Leaf(classify(k, None)?), i + 1))
            }
        }
        f @ (Tok::All | Tok::Any | Tok::Not) => {
            if t.get(i + 1)?.tok != Tok::Open {
                return None;
            }
            let mut items = vec![];
            let mut j = i + 2;
            while t.get(j)?.tok != Tok::Close {
                let (p, k) = pred(t, j)?;
                items.push(p);
                j = k;
                match t.get(j)?.tok {
                    Tok::Comma => j += 1,
                    Tok::Close => {}
                    _ => return None,
                }
            }
            let op = match f {
                Tok::All => Op::All,
                Tok::Any => Op::Any,
                _ => Op::Not,
            };
            if op == Op::Not && items.len() != 1 {
                return None;
            }
            Some((Tree::Node(op, items), j + 1))
        }
        _ => None,
    }
}

/// The tree a text denotes, if it is in the language.
pub fn parse(text: &str) -> Option<Tree> {
    let (t, end) = lex(strip(text));
    if end != LexEnd::End {
        return None;
    }
    let (tree, mut j) = pred(&t, 0)?;
    if j < t.len() && t[j].tok == Tok::Comma {
        j += 1;
    }
    (j == t.len()).then_some(tree)
}

impl Tree {
    pub fn leaves(&self, out: &mut Vec<SPred>) {
        match self {
            Tree::Leaf(p) => out.push(p.clone()),
            Tree::Node(_, v) => v.iter().for_each(|t| t.leaves(out)),
        }
    }
    pub fn eval(&self, f: &dyn Fn(&SPred) -> Option<bool>) -> Option<bool> {
        match self {
            Tree::Leaf(p) => f(p),
            Tree::Node(op, v) => {
                let vals: Vec<_> = v.iter().map(|t| t.eval(f)).collect();
                match op {
                    Op::Not => vals[0].map(|b| !b),
                    Op::All => {
                        if vals.contains(&Some(false)) {
                            Some(false)
                        } else if vals.contains(&None) {
                            None
                        } else {
                            Some(true)
                        }
                    }
                    Op::Any => {
                        if vals.contains(&Some(true)) {
                            Some(true)
                        } else if vals.contains(&None) {
                            None
                        } else {
                            Some(false)
                        }
                    }
                }
            }
        }
    }
}

/// What is reported for a rejected text: the reason in words and the span.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Fault {
    pub why: Why,
    pub a: usize,
    pub b: usize,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Why {
    Unexpected(Vec<String>),
    InvalidNot(usize),
    UnclosedParens,
    UnopenedParens,
    UnclosedQuotes,
    Empty,
    MultipleRoots,
    InvalidInteger,
    InvalidHasAtomic,
    Other(String),
}

fn unexpected(l: &[&str]) -> Why {
    Why::Unexpected(l.iter().map(|s| (*s).to_owned()).collect())
}

/// Tokens that may stand behind `last`, and the terms that are named if something else does.
fn follow(last: Option<&Tok>) -> (&'static str, &'static [&'static str]) {
    match last {
        None => ("kf", &["<key>", "all", "any", "not"]),
        Some(Tok::All | Tok::Any | Tok::Not) => ("(", &["("]),
        Some(Tok::Open) => ("kf)", &["<key>", ")", "all", "any", "not"]),
        Some(Tok::Close) => ("),", &[")", ","]),
        Some(Tok::Comma) => ("kf)", &[")", "<key>"]),
        Some(Tok::Key(_)) => ("=),", &["=", ",", ")"]),
        Some(Tok::Equals) => ("v", &["\""]),
        Some(Tok::Value(_)) => ("),", &[",", ")"]),
    }
}

fn class(t: &Tok) -> char {
    match t {
        Tok::Key(_) => 'k',
        Tok::Value(_) => 'v',
        Tok::Equals => '=',
        Tok::All | Tok::Any | Tok::Not => 'f',
        Tok::Open => '(',
        Tok::Close => ')',
        Tok::Comma => ',',
    }
}

type Words<'a> = (&'a Lt, Option<&'a Lt>);

fn option_fault((k, v): Words<'_>) -> Option<Fault> {
    let name = match &k.tok {
        Tok::Key(k) => k.as_str(),
        _ => unreachable!(),
    };
    let val = v.map(|v| match &v.tok {
        Tok::Value(s) => s.as_str(),
        _ => unreachable!(),
    });
    if classify(name, val).is_some() {
        return None;
    }
    let at_key = |why| Some(Fault { why, a: k.a, b: k.b });
    // the characters between the quotes
    let at_val = |why| v.map(|v| Fault { why, a: v.a + 1, b: v.b - 1 });
    match (name, val) {
        ("feature", _) => at_key(unexpected(&["= \"<feature_name>\""])),
        ("panic", _) => at_key(unexpected(&["= \"<panic_strategy>\""])),
        ("target_feature" | "target_endian" | "target_has_atomic" | "target_pointer_width", Some(_)) => at_val(match name {
            "target_feature" => unexpected(&["<feature>"]),
            "target_has_atomic" => Why::InvalidHasAtomic,
            _ => Why::InvalidInteger,
        }),
        (n, None) if n.starts_with("target_") => at_key(unexpected(&["= \"<target_cfg_value>\""])),
        (n, Some(_)) if n.starts_with("target_") => at_key(unexpected(&[
            "target_arch",
            "target_feature",
            "target_os",
            "target_family",
            "target_env",
            "target_endian",
            "target_has_atomic",
            "target_pointer_width",
            "target_vendor",
        ])),
        _ => at_val(unexpected(&[])),
    }
}

/// The fault that is reported for a text, if it is rejected.
pub fn failure(text: &str) -> Option<Fault> {
    let s = strip(text);
    let (toks, end) = lex(s);
    // open functions: word, its parenthesis, number of members read
    let mut open: Vec<(&Lt, Option<usize>, usize)> = vec![];
    let mut roots = 0usize;
    let mut option: Option<Words<'_>> = None;
    let mut last: Option<&Lt> = None;
    for t in &toks {
        let (may, terms) = follow(last.map(|l| &l.tok));
        // behind a comma and at the start a closing parenthesis depends on what is open
        let may_close = !matches!(last.map(|l| &l.tok), None);
        let ok = may.contains(class(&t.tok)) && (t.tok != Tok::Close || may_close);
        if !ok {
            return Some(Fault { why: unexpected(terms), a: t.a, b: t.b });
        }
        match &t.tok {
            Tok::Key(_) => option = Some((t, None)),
            Tok::Equals => {}
            Tok::Value(_) => option = option.map(|o| (o.0, Some(t))),
            Tok::All | Tok::Any | Tok::Not => open.push((t, None, 0)),
            Tok::Open => open.last_mut().unwrap().1 = Some(t.a),
            Tok::Comma | Tok::Close => {
                if t.tok == Tok::Close {
                    let Some((w, _, n)) = open.last() else {
                        return Some(Fault { why: Why::UnopenedParens, a: t.a, b: t.b });
                    };
                    let n = n + usize::from(option.is_some());
                    if w.tok == Tok::Not && n != 1 {
                        return Some(Fault { why: Why::InvalidNot(n), a: w.a, b: t.b });
                    }
                }
                if let Some(o) = option.take() {
                    if let Some(f) = option_fault(o) {
                        return Some(f);
                    }
                    *open.last_mut().map_or(&mut roots, |o| &mut o.2) += 1;
                }
                if t.tok == Tok::Close {
                    open.pop();
                    *open.last_mut().map_or(&mut roots, |o| &mut o.2) += 1;
                }
            }
        }
        last = Some(t);
    }
    match end {
        LexEnd::Unclosed(a, b) => return Some(Fault { why: Why::UnclosedQuotes, a, b }),
        LexEnd::Bad(a, b) => return Some(Fault { why: unexpected(&["<key>", "all", "any", "not"]), a, b }),
        LexEnd::End => {}
    }
    let len = s.len();
    if let Some(Lt { tok: Tok::Equals, .. }) = last {
        return Some(Fault { why: unexpected(&["\"<value>\""]), a: len, b: len });
    }
    if let Some((w, p, _)) = open.last() {
        return Some(match p {
            Some(p) => Fault { why: Why::UnclosedParens, a: *p, b: len },
            None => Fault { why: unexpected(&["("]), a: w.a, b: w.b },
        });
    }
    if let Some(o) = option {
        if let Some(f) = option_fault(o) {
            return Some(f);
        }
        roots += 1;
    }
    match roots {
        1 => None,
        0 => Some(Fault { why: Why::Empty, a: 0, b: len }),
        _ => Some(Fault { why: Why::MultipleRoots, a: 0, b: len }),
    }
}
