//! The contract files: see specs/README.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default, Clone, Debug)]
pub struct LoopAnn {
    pub header: String,
    pub begin: String,
    pub begin2: String,
    pub end: String,
    pub before: String,
    pub after: String,
    pub iter: Option<String>,
    pub desugar: bool,
}

#[derive(Default, Clone, Debug)]
pub struct FnAnn {
    pub ret: Option<String>,
    pub ret_ty: Option<String>,
    pub sig: String,
    pub spec: Option<String>,
    pub begin: String,
    pub end: String,
    pub attrs: String,
    pub loops: BTreeMap<usize, LoopAnn>,
    pub closures: BTreeMap<usize, String>,
    pub loops_exact: Option<usize>,
    pub closures_exact: Option<usize>,
    pub lifts: BTreeMap<String, String>,
    pub params: Vec<(String, String)>,
    pub add_params: Vec<String>,
    pub calls: BTreeMap<String, String>,
    pub methods: BTreeMap<String, String>,
}

#[derive(Default, Clone, Debug)]
pub struct ItemAnn {
    pub attrs: String,
    pub items: String,
    pub supertraits: String,
    pub flatten: bool,
    pub open: bool,
    pub sig: String,
    pub begin: String,
    pub table: Option<String>,
    pub entry_sig: String,
    pub entry_begin: String,
    pub block_sig: String,
    pub block_begin: String,
    pub block_proof: String,
}

#[derive(Default, Debug)]
pub struct Ann {
    pub prelude: String,
    pub append: String,
    pub fns: BTreeMap<String, FnAnn>,
    pub items: BTreeMap<String, ItemAnn>,
    pub optional: BTreeSet<String>,
    pub derives: BTreeMap<String, BTreeSet<String>>,
}

impl Ann {
    pub fn parse(text: &str, tags: &BTreeSet<String>) -> Self {
        let mut a = Ann::default();
        // section: list of lines
        let mut sections: Vec<(String, Vec<&str>)> = vec![];
        for l in text.lines() {
            if let Some(h) = l.strip_prefix("@@ ") {
                sections.push((h.trim().to_owned(), vec![]));
            } else if let Some(s) = sections.last_mut() {
                s.1.push(l);
            }
        }
        for (h, lines) in sections {
            let mut h = h;
            if let Some(rest) = h.strip_prefix('[') {
                let (tag, r) = rest.split_once(']').expect("tag");
                let on = match tag.strip_prefix('!') {
                    Some(t) => !tags.contains(t),
                    None => tags.contains(tag),
                };
                if !on {
                    continue;
                }
                h = r.trim().to_owned();
            }
            let body = lines.join("\n");
            if h == "prelude" {
                a.prelude.push_str(&body);
                a.prelude.push('\n');
            } else if h == "append" {
                a.append.push_str(&body);
                a.append.push('\n');
            } else if let Some(k) = h.strip_prefix("derive ") {
                let mut w = k.split_whitespace().map(str::to_owned);
                let t = w.next().expect("type");
                a.derives.entry(t).or_default().extend(w);
            } else if let Some(k) = h.strip_prefix("fn ") {
                let mut f = FnAnn::default();
                let mut k = k.trim().to_owned();
                if let Some(x) = k.strip_prefix("optional ") {
                    k = x.to_owned();
                    a.optional.insert(k.clone());
                }
                for (d, b) in subs(&lines) {
                    let (d, arg) = d.split_once(' ').map_or((d.as_str(), ""), |(x, y)| (x, y.trim()));
                    match d {
                        "spec" => f.spec = Some(arg.to_owned()),
                        "ret" => f.ret = Some(arg.to_owned()),
                        "ret-type" => f.ret_ty = Some(arg.to_owned()),
                        "sig" => f.sig = b,
                        "begin" => f.begin = b,
                        "end" => f.end = b,
                        "attrs" => f.attrs = b,
                        "param" => {
                            let (n, t) = arg.split_once(' ').unwrap();
                            f.params.push((n.to_owned(), t.to_owned()));
                        }
                        "add-param" => f.add_params.push(arg.to_owned()),
                        "call" => {
                            let (n, t) = arg.split_once(' ').unwrap();
                            f.calls.insert(n.to_owned(), t.to_owned());
                        }
                        "method" => {
                            let (n, t) = arg.split_once(' ').unwrap();
                            f.methods.insert(n.to_owned(), t.to_owned());
                        }
                        "lift" => {
                            let (n, c) = arg.split_once(' ').unwrap_or((arg, ""));
                            f.lifts.insert(n.to_owned(), c.to_owned());
                        }
                        "loops" => f.loops_exact = Some(arg.parse().unwrap()),
                        "closures" => f.closures_exact = Some(arg.parse().unwrap()),
                        "loop" => f.loops.entry(arg.parse().unwrap()).or_default().header = b,
                        "loop-begin" => f.loops.entry(arg.parse().unwrap()).or_default().begin = b,
                        "loop-begin2" => f.loops.entry(arg.parse().unwrap()).or_default().begin2 = b,
                        "loop-end" => f.loops.entry(arg.parse().unwrap()).or_default().end = b,
                        "loop-after" => f.loops.entry(arg.parse().unwrap()).or_default().after = b,
                        "loop-before" => f.loops.entry(arg.parse().unwrap()).or_default().before = b,
                        "loop-desugar" => f.loops.entry(arg.parse().unwrap()).or_default().desugar = true,
                        "loop-iter" => {
                            let (n, i) = arg.split_once(' ').unwrap();
                            f.loops.entry(n.parse().unwrap()).or_default().iter = Some(i.to_owned());
                        }
                        "closure" => {
                            let (n, i) = arg.split_once(' ').unwrap_or((arg, ""));
                            let t = if i.is_empty() { b } else { i.to_owned() };
                            f.closures.insert(n.parse().unwrap(), t);
                        }
                        _ => panic!("unknown directive @{d} in {k}"),
                    }
                }
                a.fns.insert(k, f);
            } else {
                let mut it = ItemAnn::default();
                for (d, b) in subs(&lines) {
                    let (d, arg) = d.split_once(' ').map_or((d.as_str(), ""), |(x, y)| (x, y.trim()));
                    match d {
                        "attrs" => it.attrs = b,
                        "items" => it.items = b,
                        "supertraits" => it.supertraits = arg.to_owned(),
                        "flatten" => it.flatten = true,
                        "open" => it.open = true,
                        "sig" => it.sig = b,
                        "begin" => it.begin = b,
                        "table" => it.table = Some(arg.to_owned()),
                        "entry-sig" => it.entry_sig = b,
                        "block-sig" => it.block_sig = b,
                        "block-begin" => it.block_begin = b,
                        "block-proof" => it.block_proof = b,
                        "entry-begin" => it.entry_begin = b,
                        _ => panic!("unknown directive @{d} in {h}"),
                    }
                }
                a.items.insert(h, it);
            }
        }
        a
    }
}

fn subs(lines: &[&str]) -> Vec<(String, String)> {
    let mut v: Vec<(String, Vec<&str>)> = vec![];
    for l in lines {
        if let Some(d) = l.strip_prefix('@') {
            v.push((d.trim().to_owned(), vec![]));
        } else if let Some(s) = v.last_mut() {
            s.1.push(l);
        } else if !l.trim().is_empty() && !l.starts_with('#') {
            panic!("text outside of a directive: {l}");
        }
    }
    v.into_iter()
        .map(|(d, ls)| {
            let mut t = ls.join("\n");
            if !t.trim().is_empty() {
                t.push('\n');
            } else {
                t.clear();
            }
            (d, t)
        })
        .collect()
}

#[derive(Default, Debug)]
pub struct Unit {
    pub files: Vec<(String, String)>,
    pub ghost: Vec<String>,
    pub omit: BTreeSet<String>,
    pub external: BTreeSet<String>,
    pub features: BTreeSet<String>,
    pub tags: BTreeSet<String>,
    /// "FILE ITEM": looked at as in mode verify, whatever the mode of the file
    pub verify: BTreeSet<String>,
}

impl Unit {
    pub fn parse(text: &str) -> Self {
        let mut u = Unit::default();
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') {
                continue;
            }
            let (d, arg) = l.split_once(' ').expect("unit line");
            let arg = arg.trim();
            match d {
                "file" => {
                    let (f, m) = arg.split_once(' ').unwrap();
                    u.files.push((f.to_owned(), m.trim().to_owned()));
                }
                "ghost" => u.ghost.extend(arg.split_whitespace().map(str::to_owned)),
                "omit" => {
                    u.omit.insert(arg.to_owned());
                }
                "external" => {
                    u.external.insert(arg.to_owned());
                }
                "feature" => {
                    u.features.insert(arg.to_owned());
                }
                "tag" => {
                    u.tags.insert(arg.to_owned());
                }
                "verify" => {
                    u.verify.insert(arg.to_owned());
                }
                _ => panic!("unit directive {d}"),
            }
        }
        u
    }
}
