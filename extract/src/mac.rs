//! A small macro_rules! expander: single-character separators, fragments ident, expr, tt, meta, ty, literal.
use proc_macro2::{Delimiter, Group, TokenStream, TokenTree};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
enum Bind {
    One(TokenStream),
    Many(Vec<BTreeMap<String, Bind>>),
}
type Binds = BTreeMap<String, Bind>;

fn toks(t: TokenStream) -> Vec<TokenTree> {
    t.into_iter().collect()
}

fn is_p(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}

pub fn expand(def: TokenStream, input: TokenStream) -> Result<TokenStream, String> {
    let d = toks(def);
    let input = toks(input);
    let mut i = 0;
    while i < d.len() {
        let (TokenTree::Group(pat), TokenTree::Group(body)) = (&d[i], d.get(i + 3).ok_or("arm")?) else {
            return Err("macro arm".into());
        };
        if let Some((b, rest)) = match_seq(&toks(pat.stream()), &input) {
            if rest == input.len() {
                return transcribe(&toks(body.stream()), &b);
            }
        }
        i += 4;
        if is_p(d.get(i), ';') {
            i += 1;
        }
    }
    Err("no arm matches".into())
}

/// Matches a pattern at the start of `t`: the bindings and the number of tokens used.
fn match_seq(p: &[TokenTree], t: &[TokenTree]) -> Option<(Binds, usize)> {
    let mut b = Binds::new();
    let (mut i, mut j) = (0, 0);
    while i < p.len() {
        if is_p(p.get(i), '$') {
            match p.get(i + 1)? {
                TokenTree::Ident(name) => {
                    let TokenTree::Ident(kind) = p.get(i + 3)? else { return None };
                    let n = match kind.to_string().as_str() {
                        "ident" => matches!(t.get(j)?, TokenTree::Ident(_)) as usize,
                        "tt" | "literal" => (t.len() > j) as usize,
                        "meta" | "expr" | "ty" | "path" => {
                            let mut k = j;
                            while k < t.len() && !is_p(t.get(k), ',') && !is_p(t.get(k), ';') {
                                k += 1;
                            }
                            k - j
                        }
                        _ => return None,
                    };
                    if n == 0 {
                        return None;
                    }
                    b.insert(name.to_string(), Bind::One(t[j..j + n].iter().cloned().collect()));
                    j += n;
                    i += 4;
                }
                TokenTree::Group(g) => {
                    let sub = toks(g.stream());
                    let mut k = i + 2;
                    let mut sep = None;
                    if !(is_p(p.get(k), '*') || is_p(p.get(k), '+') || is_p(p.get(k), '?')) {
                        sep = Some(p.get(k)?.to_string());
                        k += 1;
                    }
                    let op = p.get(k)?.to_string();
                    let mut many = vec![];
                    loop {
                        let mut start = j;
                        if !many.is_empty() {
                            if let Some(s) = &sep {
                                match t.get(j) {
                                    Some(x) if x.to_string() == *s => start += 1,
                                    _ => break,
                                }
                            }
                        }
                        match match_seq(&sub, &t[start..]) {
                            Some((bb, n)) if n > 0 => {
                                many.push(bb);
                                j = start + n;
                            }
                            _ => break,
                        }
                        if op == "?" {
                            break;
                        }
                    }
                    if op == "+" && many.is_empty() {
                        return None;
                    }
                    for name in names(&sub) {
                        b.insert(name.clone(), Bind::Many(many.clone()));
                    }
                    i = k + 1;
                }
                _ => return None,
            }
            continue;
        }
        match (&p[i], t.get(j)?) {
            (TokenTree::Group(a), TokenTree::Group(c)) => {
                if a.delimiter() != c.delimiter() {
                    return None;
                }
                let ct = toks(c.stream());
                let (bb, n) = match_seq(&toks(a.stream()), &ct)?;
                if n != ct.len() {
                    return None;
                }
                b.extend(bb);
            }
            (a, c) => {
                if a.to_string() != c.to_string() {
                    return None;
                }
            }
        }
        i += 1;
        j += 1;
    }
    Some((b, j))
}

fn names(p: &[TokenTree]) -> Vec<String> {
    let mut v = vec![];
    for i in 0..p.len() {
        match &p[i] {
            TokenTree::Group(g) => v.extend(names(&toks(g.stream()))),
            TokenTree::Ident(n) if i > 0 && is_p(p.get(i - 1), '$') => v.push(n.to_string()),
            _ => {}
        }
    }
    v
}

fn transcribe(p: &[TokenTree], b: &Binds) -> Result<TokenStream, String> {
    let mut out: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < p.len() {
        if is_p(p.get(i), '$') {
            match p.get(i + 1) {
                Some(TokenTree::Ident(n)) => match b.get(&n.to_string()) {
                    Some(Bind::One(t)) => {
                        out.extend(t.clone());
                        i += 2;
                        continue;
                    }
                    x => return Err(format!("metavariable {n}: {x:?}")),
                },
                Some(TokenTree::Group(g)) => {
                    let sub = toks(g.stream());
                    let mut k = i + 2;
                    let mut sep = None;
                    if !(is_p(p.get(k), '*') || is_p(p.get(k), '+') || is_p(p.get(k), '?')) {
                        sep = p.get(k).cloned();
                        k += 1;
                    }
                    let driver = names(&sub)
                        .into_iter()
                        .find_map(|n| match b.get(&n) {
                            Some(Bind::Many(v)) => Some(v.clone()),
                            _ => None,
                        })
                        .ok_or("repetition without a repeated variable")?;
                    for (x, bb) in driver.iter().enumerate() {
                        if x > 0 {
                            out.extend(sep.clone());
                        }
                        let mut all = b.clone();
                        all.extend(bb.clone());
                        out.extend(transcribe(&sub, &all)?);
                    }
                    i = k + 1;
                    continue;
                }
                _ => return Err("dollar".into()),
            }
        }
        match &p[i] {
            TokenTree::Group(g) => {
                let mut n = Group::new(g.delimiter(), transcribe(&toks(g.stream()), b)?);
                n.set_span(g.span());
                out.push(TokenTree::Group(n));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    Ok(out.into_iter().collect())
}

/// The text of a token stream, one item or statement per line.
pub fn to_text(t: TokenStream) -> String {
    let s = t.to_string();
    let _ = Delimiter::Brace;
    s.replace("} impl", "}\nimpl").replace("; }", "; }\n")
}
