//! `#[derive(..)]` of PartialEq, PartialOrd, Ord and Clone written out as the reference defines
//! them, so that the verifier sees what they do: fields in order, variants in declaration order.
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;

struct Shape {
    /// path of the constructor, fields (name or index), named?
    variants: Vec<(String, Vec<String>, bool)>,
}

fn shape(item: &syn::Item) -> Option<(String, String, &[syn::Attribute], Shape)> {
    // lifetimes only
    let plain = |g: &syn::Generics| g.where_clause.is_none() && g.params.iter().all(|p| matches!(p, syn::GenericParam::Lifetime(_)));
    let ty = |i: &syn::Ident, g: &syn::Generics| if g.params.is_empty() { i.to_string() } else { format!("{i}<{}>", vec!["'_"; g.params.len()].join(", ")) };
    let fields = |f: &syn::Fields| -> (Vec<String>, bool) {
        match f {
            syn::Fields::Named(n) => (n.named.iter().map(|x| x.ident.as_ref().unwrap().to_string()).collect(), true),
            syn::Fields::Unnamed(u) => ((0..u.unnamed.len()).map(|i| i.to_string()).collect(), false),
            syn::Fields::Unit => (vec![], false),
        }
    };
    match item {
        syn::Item::Struct(s) if plain(&s.generics) => {
            let (f, n) = fields(&s.fields);
            Some((s.ident.to_string(), ty(&s.ident, &s.generics), &s.attrs, Shape { variants: vec![(s.ident.to_string(), f, n)] }))
        }
        syn::Item::Enum(e) if plain(&e.generics) && !e.variants.is_empty() && e.variants.iter().all(|v| v.discriminant.is_none()) => {
            let variants = e
                .variants
                .iter()
                .map(|v| {
                    let (f, n) = fields(&v.fields);
                    (format!("{}::{}", e.ident, v.ident), f, n)
                })
                .collect();
            Some((e.ident.to_string(), ty(&e.ident, &e.generics), &e.attrs, Shape { variants }))
        }
        _ => None,
    }
}

impl Shape {
    fn pat(&self, k: usize, p: &str) -> String {
        let (path, f, named) = &self.variants[k];
        if f.is_empty() {
            path.clone()
        } else if *named {
            format!("{path} {{ {} }}", f.iter().map(|x| format!("{x}: {p}{x}")).collect::<Vec<_>>().join(", "))
        } else {
            format!("{path}({})", f.iter().map(|x| format!("{p}{x}")).collect::<Vec<_>>().join(", "))
        }
    }
    fn any(&self, k: usize) -> String {
        let (path, f, named) = &self.variants[k];
        match (f.is_empty(), *named) {
            (true, _) => path.clone(),
            (_, true) => format!("{path} {{ .. }}"),
            _ => format!("{path}(..)"),
        }
    }
    fn ranks(&self, of: &str) -> String {
        let arms = (0..self.variants.len()).map(|k| format!("{} => {k}", self.any(k))).collect::<Vec<_>>().join(", ");
        format!("match {of} {{ {arms} }}")
    }
    fn two(&self, each: &dyn Fn(&[String]) -> String, other: &str) -> String {
        let mut arms: Vec<String> = (0..self.variants.len()).map(|k| format!("({}, {}) => {}", self.pat(k, "__a"), self.pat(k, "__b"), each(&self.variants[k].1))).collect();
        if self.variants.len() > 1 {
            arms.push(format!("_ => {other}"));
        }
        format!("match (self, other) {{ {} }}", arms.join(", "))
    }
    fn make(&self, name: &str, which: &str, copy: bool) -> Option<String> {
        let o = "std::cmp::Ordering";
        Some(match which {
            "PartialEq" => {
                let each = |f: &[String]| {
                    if f.is_empty() {
                        "true".to_owned()
                    } else {
                        f.iter().map(|x| format!("*__a{x} == *__b{x}")).collect::<Vec<_>>().join(" && ")
                    }
                };
                format!("impl PartialEq for {name} {{\n    fn eq(&self, other: &Self) -> bool {{ {} }}\n}}\n", self.two(&each, "false"))
            }
            "PartialOrd" | "Ord" => {
                let (f, some, eq) = if which == "Ord" { ("Ord::cmp", "", format!("{o}::Equal")) } else { ("PartialOrd::partial_cmp", "Some", format!("Some({o}::Equal)")) };
                let each = |fs: &[String]| {
                    let mut t = eq.clone();
                    for (i, x) in fs.iter().enumerate().rev() {
                        let c = format!("{f}(__a{x}, __b{x})");
                        t = if i + 1 == fs.len() { c } else { format!("match {c} {{ {eq} => {t}, __c => __c }}") };
                    }
                    t
                };
                let other = format!(
                    "{{ let __i: usize = {}; let __j: usize = {}; if __i < __j {{ {some}({o}::Less) }} else if __i == __j {{ {some}({o}::Equal) }} else {{ {some}({o}::Greater) }} }}",
                    self.ranks("self"),
                    self.ranks("other")
                );
                let head = if which == "Ord" { format!("fn cmp(&self, other: &Self) -> {o}") } else { format!("fn partial_cmp(&self, other: &Self) -> Option<{o}>") };
                format!("impl {which} for {name} {{\n    {head} {{ {} }}\n}}\n", self.two(&each, &other))
            }
            "Clone" if copy => format!("impl Clone for {name} {{\n    fn clone(&self) -> Self {{ *self }}\n}}\n"),
            "Clone" => {
                let arms = (0..self.variants.len())
                    .map(|k| {
                        let (path, f, named) = &self.variants[k];
                        let val = if f.is_empty() {
                            path.clone()
                        } else if *named {
                            format!("{path} {{ {} }}", f.iter().map(|x| format!("{x}: Clone::clone(__a{x})")).collect::<Vec<_>>().join(", "))
                        } else {
                            format!("{path}({})", f.iter().map(|x| format!("Clone::clone(__a{x})")).collect::<Vec<_>>().join(", "))
                        };
                        format!("{} => {val}", self.pat(k, "__a"))
                    })
                    .collect::<Vec<_>>()
                    .join(", ");
                format!("impl Clone for {name} {{\n    fn clone(&self) -> Self {{ match self {{ {arms} }} }}\n}}\n")
            }
            _ => return None,
        })
    }
}

/// `wanted`: for each type the derives to write out.
pub fn expand(text: String, wanted: &BTreeMap<String, BTreeSet<String>>, notes: &mut Vec<String>) -> String {
    let Ok(file) = syn::parse_file(&text) else { return text };
    let lines: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let at = |p: proc_macro2::LineColumn| {
        let l = lines[p.line - 1];
        l + text[l..].chars().take(p.column).map(char::len_utf8).sum::<usize>()
    };
    let mut edits: Vec<(usize, usize, String)> = vec![];
    for item in &file.items {
        let Some((name, ty, attrs, shape)) = shape(item) else { continue };
        let Some(want) = wanted.get(&name) else { continue };
        let derives: Vec<(&syn::Attribute, Vec<syn::Path>)> = attrs
            .iter()
            .filter(|a| a.path().is_ident("derive"))
            .filter_map(|a| a.parse_args_with(syn::punctuated::Punctuated::<syn::Path, syn::Token![,]>::parse_terminated).ok().map(|p| (a, p.into_iter().collect())))
            .collect();
        let last = |p: &syn::Path| p.segments.last().unwrap().ident.to_string();
        let copy = derives.iter().any(|d| d.1.iter().any(|p| last(p) == "Copy"));
        let mut made = String::new();
        for (a, ps) in &derives {
            let mut keep = vec![];
            for p in ps {
                let n = last(p);
                match if want.contains(&n) { shape.make(&ty, &n, copy) } else { None } {
                    Some(t) => {
                        notes.push(format!("derive({n}) of {name} written out"));
                        made.push_str(&t);
                    }
                    None => keep.push(p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")),
                }
            }
            if keep.len() < ps.len() {
                let (s, e) = (at(a.span().start()), at(a.span().end()));
                edits.push((s, e, if keep.is_empty() { String::new() } else { format!("#[derive({})]", keep.join(", ")) }));
            }
        }
        if !made.is_empty() {
            let e = at(item.span().end());
            edits.push((e, e, format!("\n\n{made}")));
        }
    }
    let mut out = text;
    edits.sort_by_key(|e| std::cmp::Reverse((e.0, e.1)));
    for (s, e, t) in edits {
        out.replace_range(s..e, &t);
    }
    out
}
