//! Ahead of the extraction: a private function or local closure that has no contract and no recursion is
//! written at the places where it is called.  The rules that keep the meaning: parameters become `let`s in order,
//! a `return` is only taken over where the rest can be put into its `else`, a `?` only where the call itself is under a `?`.
use proc_macro2::{Span, TokenStream, TokenTree};
use std::collections::BTreeSet;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

use crate::Src;

#[derive(Clone, Debug)]
struct Helper {
    name: String,
    /// the type of the impl it stands in
    of: Option<String>,
    /// `self`, `&self`, `&mut self`
    recv: Option<String>,
    params: Vec<(String, bool, Option<String>)>,
    ret: Option<String>,
    body: String,
    question: bool,
    idents: BTreeSet<String>,
    /// the item or statement
    whole: Range<usize>,
    closure: bool,
}

fn idents(ts: TokenStream, out: &mut BTreeSet<String>) {
    for t in ts {
        match t {
            TokenTree::Ident(i) => {
                out.insert(i.to_string());
            }
            TokenTree::Group(g) => idents(g.stream(), out),
            // a name in a format string
            TokenTree::Literal(l) => {
                for p in l.to_string().split('{').skip(1) {
                    let n: String = p.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    if !n.is_empty() {
                        out.insert(n);
                    }
                }
            }
            TokenTree::Punct(_) => {}
        }
    }
}

fn idents_of(text: &str) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    if let Ok(t) = text.parse::<TokenStream>() {
        idents(t, &mut s);
    }
    s
}

/// `'a` becomes `'_`.
fn elide(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if c == '\'' {
            let name: String = t[i + 1..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            for _ in name.chars() {
                it.next();
            }
            out.push_str(if name == "static" { "'static" } else { "'_" });
        } else {
            out.push(c);
        }
    }
    out
}

#[derive(Default)]
struct Scan {
    leaves: bool,
    question: bool,
    bad: bool,
    depth: usize,
}

impl<'a> Visit<'a> for Scan {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.leaves = true;
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.question = true;
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_for_loop(&mut self, l: &'a syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'a syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) {
        self.bad |= self.depth == 0 || b.label.is_some();
        visit::visit_expr_break(self, b);
    }
    fn visit_expr_continue(&mut self, c: &'a syn::ExprContinue) {
        self.bad |= self.depth == 0 || c.label.is_some();
    }
    fn visit_item(&mut self, _: &'a syn::Item) {
        self.bad = true;
    }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        // what leaves a closure does not leave the function
        let mut s = Scan::default();
        s.visit_expr(&c.body);
        self.bad |= s.bad;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        let mut i = BTreeSet::new();
        idents(m.tokens.clone(), &mut i);
        let name = m.path.segments.last().map_or(String::new(), |s| s.ident.to_string());
        if i.contains("return") || m.tokens.to_string().contains('?') || !matches!(&*name, "matches" | "unreachable" | "panic" | "vec" | "format_args" | "write" | "writeln" | "format" | "debug_assert" | "assert" | "unimplemented" | "todo") {
            self.bad = true;
        }
    }
}

fn scan_block(b: &syn::Block) -> Scan {
    let mut s = Scan::default();
    s.visit_block(b);
    s
}

/// The text of a block in which every `return` stands at an end, without them.
fn tail_block(src: &Src, b: &syn::Block) -> Option<String> {
    Some(format!("{{ {} }}", tail_stmts(src, &b.stmts)?))
}

fn tail_stmts(src: &Src, stmts: &[syn::Stmt]) -> Option<String> {
    let text = |s: Span| src.text[src.range(s)].to_owned();
    let Some((first, rest)) = stmts.split_first() else { return Some(String::new()) };
    let mut s = Scan::default();
    s.visit_stmt(first);
    if !s.leaves && !rest.is_empty() {
        return Some(format!("{} {}", text(first.span()), tail_stmts(src, rest)?));
    }
    match first {
        syn::Stmt::Expr(e, semi) => {
            if rest.is_empty() {
                return match e {
                    syn::Expr::Return(_) => tail_expr(src, e),
                    _ if semi.is_some() && s.leaves => None,
                    _ if semi.is_some() => Some(format!("{};", text(e.span()))),
                    _ => tail_expr(src, e),
                };
            }
            // `if c { ..; return x; } rest`
            if let syn::Expr::If(i) = e {
                if i.else_branch.is_none() && always_leaves(&i.then_branch) {
                    let mut c = Scan::default();
                    c.visit_expr(&i.cond);
                    if !c.leaves {
                        return Some(format!("if {} {} else {{ {} }}", text(i.cond.span()), tail_block(src, &i.then_branch)?, tail_stmts(src, rest)?));
                    }
                }
            }
            None
        }
        // `let P = e else { return x; }; rest`
        syn::Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let (_, els) = init.diverge.as_ref()?;
            let mut c = Scan::default();
            c.visit_expr(&init.expr);
            if c.leaves {
                return None;
            }
            let syn::Expr::Block(eb) = &**els else { return None };
            if !always_leaves(&eb.block) {
                return None;
            }
            Some(format!("if let {} = {} {{ {} }} else {}", text(l.pat.span()), text(init.expr.span()), tail_stmts(src, rest)?, tail_block(src, &eb.block)?))
        }
        _ => (!s.leaves).then(|| text(first.span())),
    }
}

fn always_leaves(b: &syn::Block) -> bool {
    matches!(b.stmts.last(), Some(syn::Stmt::Expr(syn::Expr::Return(_), _)))
}

fn tail_expr(src: &Src, e: &syn::Expr) -> Option<String> {
    let text = |s: Span| src.text[src.range(s)].to_owned();
    let mut s = Scan::default();
    s.visit_expr(e);
    if !s.leaves {
        return Some(text(e.span()));
    }
    match e {
        syn::Expr::Return(r) => match &r.expr {
            Some(x) => tail_expr(src, x),
            None => Some("()".into()),
        },
        syn::Expr::If(i) => {
            let mut c = Scan::default();
            c.visit_expr(&i.cond);
            if c.leaves {
                return None;
            }
            let (_, els) = i.else_branch.as_ref()?;
            Some(format!("if {} {} else {{ {} }}", text(i.cond.span()), tail_block(src, &i.then_branch)?, tail_expr(src, els)?))
        }
        syn::Expr::Block(b) if b.label.is_none() => tail_block(src, &b.block),
        syn::Expr::Match(m) => {
            let mut c = Scan::default();
            c.visit_expr(&m.expr);
            if c.leaves {
                return None;
            }
            let mut out = format!("match {} {{ ", text(m.expr.span()));
            for a in &m.arms {
                let g = match &a.guard {
                    Some((_, g)) => {
                        let mut c = Scan::default();
                        c.visit_expr(g);
                        if c.leaves {
                            return None;
                        }
                        format!(" if {}", text(g.span()))
                    }
                    None => String::new(),
                };
                out.push_str(&format!("{}{g} => {{ {} }} ", text(a.pat.span()), tail_expr(src, &a.body)?));
            }
            out.push('}');
            Some(out)
        }
        _ => None,
    }
}

struct Collect<'a> {
    src: &'a Src,
    known: &'a dyn Fn(&str) -> bool,
    impl_of: Option<String>,
    out: Vec<Helper>,
}

impl Collect<'_> {
    fn text(&self, s: Span) -> String {
        self.src.text[self.src.range(s)].to_owned()
    }
    fn function(&mut self, sig: &syn::Signature, block: &syn::Block, whole: Span, of: Option<String>) {
        let name = sig.ident.to_string();
        if (self.known)(&name) || of.as_ref().is_some_and(|o| (self.known)(&format!("{o}::{name}"))) {
            return;
        }
        if sig.asyncness.is_some() || sig.unsafety.is_some() {
            return;
        }
        // a type that speaks of a type parameter is left to inference
        let mut tp = BTreeSet::new();
        for p in &sig.generics.params {
            match p {
                syn::GenericParam::Lifetime(_) => {}
                syn::GenericParam::Type(t) => {
                    tp.insert(t.ident.to_string());
                }
                syn::GenericParam::Const(_) => return,
            }
        }
        let free = |t: &str| idents_of(t).iter().any(|i| i == "impl" || tp.contains(i));
        let s = scan_block(block);
        if s.bad {
            return;
        }
        let Some(body) = tail_block(self.src, block) else { return };
        let mut params = vec![];
        let mut recv = None;
        for i in &sig.inputs {
            match i {
                syn::FnArg::Receiver(r) => {
                    if r.colon_token.is_some() {
                        return;
                    }
                    recv = Some(match (&r.reference, r.mutability) {
                        (Some(_), Some(_)) => "&mut ".to_owned(),
                        (Some(_), None) => "&".to_owned(),
                        (None, None) => String::new(),
                        _ => return,
                    });
                }
                syn::FnArg::Typed(t) => {
                    let syn::Pat::Ident(p) = &*t.pat else { return };
                    if p.by_ref.is_some() || p.subpat.is_some() {
                        return;
                    }
                    let ty = self.text(t.ty.span());
                    let ty = (!free(&ty)).then(|| elide(&ty));
                    params.push((p.ident.to_string(), p.mutability.is_some(), ty));
                }
            }
        }
        let ret = match &sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => Some(self.text(t.span())),
        };
        let ret = ret.filter(|r| !free(r));
        let ids = idents_of(&body);
        if ids.contains(&name) || ids.iter().any(|i| tp.contains(i)) {
            return;
        }
        self.out.push(Helper { name, of, recv, params, ret: ret.map(|r| elide(&r)), body, question: s.question, idents: ids, whole: self.src.range(whole), closure: false });
    }
}

fn plain_attrs(a: &[syn::Attribute]) -> bool {
    a.iter().all(|a| ["inline", "doc", "allow", "must_use", "cold"].iter().any(|n| a.path().is_ident(n)))
}

impl<'a> Visit<'a> for Collect<'_> {
    fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
    fn visit_item_trait(&mut self, _: &'a syn::ItemTrait) {}
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        if plain_attrs(&f.attrs) {
            self.function(&f.sig, &f.block, f.span(), None);
        }
        visit::visit_item_fn(self, f);
    }
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        let was = self.impl_of.take();
        if i.trait_.is_none() && i.generics.params.iter().all(|p| matches!(p, syn::GenericParam::Lifetime(_))) {
            self.impl_of = Some(crate::ty_name(&i.self_ty));
        }
        visit::visit_item_impl(self, i);
        self.impl_of = was;
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        if let Some(of) = self.impl_of.clone() {
            if plain_attrs(&f.attrs) {
                self.function(&f.sig, &f.block, f.span(), Some(of));
            }
        }
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        for (n, s) in b.stmts.iter().enumerate() {
            let syn::Stmt::Local(l) = s else { continue };
            let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) else { continue };
            let syn::Expr::Closure(c) = &*init.expr else { continue };
            let name = p.ident.to_string();
            if (self.known)(&name) || p.mutability.is_some() || c.capture.is_some() || init.diverge.is_some() || !l.attrs.is_empty() {
                continue;
            }
            let mut sc = Scan::default();
            sc.visit_expr(&c.body);
            if sc.bad || sc.question {
                continue;
            }
            let Some(body) = tail_expr(self.src, &c.body) else { continue };
            let ids = idents_of(&body);
            let mut params = vec![];
            let mut ok = true;
            for i in &c.inputs {
                let (p, t) = match i {
                    syn::Pat::Type(t) => (&*t.pat, Some(elide(&self.text(t.ty.span())))),
                    p => (p, None),
                };
                match p {
                    syn::Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => params.push((p.ident.to_string(), p.mutability.is_some(), t)),
                    _ => ok = false,
                }
            }
            // nothing the body speaks of is bound anew behind it
            let mut bound = Bound::default();
            for s in &b.stmts[n + 1..] {
                bound.visit_stmt(s);
            }
            if !ok || ids.contains(&name) || bound.names.contains(&name) || bound.names.iter().any(|b| ids.contains(b) && !params.iter().any(|p| p.0 == *b)) {
                continue;
            }
            let ret = match &c.output {
                syn::ReturnType::Default => None,
                syn::ReturnType::Type(_, t) => Some(elide(&self.text(t.span()))),
            };
            self.out.push(Helper { name, of: None, recv: None, params, ret, body: format!("{{ {body} }}"), question: false, idents: ids, whole: self.src.range(s.span()), closure: true });
        }
        visit::visit_block(self, b);
    }
}

#[derive(Default)]
struct Bound {
    names: BTreeSet<String>,
}

impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.names.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
}

/// Where a helper is called.
struct Calls<'a> {
    src: &'a Src,
    helpers: &'a [Helper],
    impl_of: Option<String>,
    /// the call under a `?`
    tried: Option<Range<usize>>,
    found: Option<(usize, Range<usize>, String)>,
    fresh: usize,
}

impl Calls<'_> {
    fn place(&mut self, h: usize, whole: Range<usize>, recv: Option<&syn::Expr>, args: Vec<&syn::Expr>) {
        let text = |s: Span| self.src.text[self.src.range(s)].to_owned();
        let x = &self.helpers[h];
        if self.found.is_some() || args.len() != x.params.len() || (whole.start >= x.whole.start && whole.end <= x.whole.end) {
            return;
        }
        if x.question && self.tried != Some(whole.clone()) {
            return;
        }
        let mut body = x.body.clone();
        let mut lets = String::new();
        let arg_texts: Vec<String> = args.iter().map(|a| text(a.span())).collect();
        if arg_texts.iter().any(|a| { let i = idents_of(a); i.contains("return") || a.contains('?') }) {
            return;
        }
        if let (Some(r), Some(how)) = (recv, &x.recv) {
            let r = text(r.span());
            if r != "self" {
                let n = format!("__h{}", self.fresh);
                lets.push_str(&format!("let {n} = {how}{r}; "));
                body = swap_ident(&body, "self", &n);
            }
        } else if recv.is_some() != x.recv.is_some() {
            return;
        }
        if let Some(of) = &x.of {
            if self.impl_of.as_ref() != Some(of) {
                body = swap_ident(&body, "Self", of);
            }
        }
        // parameters: those that are called as their argument need no `let`
        let bind: Vec<usize> = (0..args.len()).filter(|i| x.params[*i].1 || arg_texts[*i] != x.params[*i].0).collect();
        let skipped: BTreeSet<&String> = (0..args.len()).filter(|i| !bind.contains(i)).map(|i| &x.params[i].0).collect();
        for (k, i) in bind.iter().enumerate() {
            // an argument must not see the parameters bound ahead of it
            let ids = idents_of(&arg_texts[*i]);
            if bind[..k].iter().any(|j| ids.contains(&x.params[*j].0)) || skipped.contains(&x.params[*i].0) {
                return;
            }
        }
        for i in &bind {
            let (p, m, t) = &x.params[*i];
            let m = if *m { "mut " } else { "" };
            match t {
                Some(t) if t.starts_with("&mut") || t.starts_with("&'_ mut") => lets.push_str(&format!("let {m}{p}: {t} = &mut *({}); ", arg_texts[*i])),
                Some(t) => lets.push_str(&format!("let {m}{p}: {t} = {}; ", arg_texts[*i])),
                None => lets.push_str(&format!("let {m}{p} = {}; ", arg_texts[*i])),
            }
        }
        let text = match &x.ret {
            Some(r) => format!("({{ {lets}let __r{n}: {r} = {body}; __r{n} }})", n = self.fresh),
            None => format!("({{ {lets}{body} }})"),
        };
        self.found = Some((h, whole, text));
    }
}

/// One identifier for another, as a token.
fn swap_ident(text: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    let mut quoted = false;
    let mut prev = ' ';
    let flush = |w: &mut String, out: &mut String| {
        out.push_str(if w == from { to } else { w });
        w.clear();
    };
    for c in text.chars() {
        if c == '"' && prev != '\\' {
            quoted = !quoted;
        }
        if !quoted && (c.is_alphanumeric() || c == '_') {
            word.push(c);
        } else {
            flush(&mut word, &mut out);
            out.push(c);
        }
        prev = c;
    }
    flush(&mut word, &mut out);
    out
}

impl<'a> Visit<'a> for Calls<'_> {
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        let was = self.impl_of.replace(crate::ty_name(&i.self_ty));
        visit::visit_item_impl(self, i);
        self.impl_of = was;
    }
    fn visit_expr_try(&mut self, t: &'a syn::ExprTry) {
        self.tried = Some(self.src.range(t.expr.span()));
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        visit::visit_expr_call(self, c);
        let syn::Expr::Path(p) = &*c.func else { return };
        let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let hit = self.helpers.iter().position(|h| match (&*seg, &h.of) {
            ([n], None) => *n == h.name,
            ([t, n], Some(of)) => *n == h.name && (t == of || (t == "Self" && self.impl_of.as_ref() == Some(of))) && h.recv.is_none(),
            _ => false,
        });
        if let Some(h) = hit {
            let whole = self.src.range(c.span());
            self.place(h, whole, None, c.args.iter().collect());
        }
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        let n = m.method.to_string();
        if let Some(h) = self.helpers.iter().position(|h| h.recv.is_some() && h.name == n) {
            let whole = self.src.range(m.span());
            self.place(h, whole, Some(&m.receiver), m.args.iter().collect());
        }
    }
}

/// Calls that are left.
fn uses(text: &str, name: &str) -> usize {
    fn count(ts: TokenStream, name: &str) -> usize {
        let ts: Vec<TokenTree> = ts.into_iter().collect();
        let mut n = 0;
        for (i, t) in ts.iter().enumerate() {
            match t {
                TokenTree::Ident(id) if id == name => {
                    let call = matches!(ts.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == proc_macro2::Delimiter::Parenthesis);
                    n += usize::from(call && !(i > 0 && matches!(&ts[i - 1], TokenTree::Ident(f) if f == "fn")));
                }
                TokenTree::Group(g) => n += count(g.stream(), name),
                _ => {}
            }
        }
        n
    }
    text.parse::<TokenStream>().map_or(usize::MAX, |t| count(t, name))
}

/// Functions of the source that bear the name of a ghost function get another one.
pub fn apart(text: String, ghosts: &BTreeSet<String>, known: &dyn Fn(&str) -> bool, notes: &mut Vec<String>) -> String {
    struct Named(BTreeSet<String>, BTreeSet<String>);
    impl<'ast> Visit<'ast> for Named {
        fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
            self.0.insert(f.sig.ident.to_string());
            visit::visit_item_fn(self, f);
        }
        fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
            self.1.insert(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    struct Uses<'a>(&'a Src, &'a BTreeSet<String>, Vec<(std::ops::Range<usize>, String)>);
    impl<'ast> Visit<'ast> for Uses<'_> {
        fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
            let n = f.sig.ident.to_string();
            if self.1.contains(&n) {
                self.2.push((self.0.range(f.sig.ident.span()), format!("{n}__fn")));
            }
            visit::visit_item_fn(self, f);
        }
        fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
            if p.path.segments.len() == 1 && self.1.contains(&p.path.segments[0].ident.to_string()) {
                let i = &p.path.segments[0].ident;
                self.2.push((self.0.range(i.span()), format!("{i}__fn")));
            }
            visit::visit_expr_path(self, p);
        }
    }
    let Ok(parsed) = syn::parse_file(&text) else { return text };
    let mut n = Named(BTreeSet::new(), BTreeSet::new());
    n.visit_file(&parsed);
    let names: BTreeSet<String> = n.0.iter().filter(|f| ghosts.contains(*f) && !known(f) && !n.1.contains(*f)).cloned().collect();
    if names.is_empty() {
        return text;
    }
    let src = Src::new(text.clone());
    let mut u = Uses(&src, &names, vec![]);
    u.visit_file(&parsed);
    let mut edits = u.2;
    edits.sort_by_key(|e| std::cmp::Reverse(e.0.start));
    edits.dedup();
    let mut text = text;
    for (r, t) in edits {
        text.replace_range(r, &t);
    }
    for f in names {
        notes.push(format!("fn {f} written as {f}__fn (a ghost function has its name)"));
    }
    text
}

/// Items that are there with the feature `targets` only are looked at as well (the others drop them later).
fn plain_or_lexicon(a: &[syn::Attribute]) -> bool {
    a.iter().all(|a| !a.path().is_ident("cfg") || matches!(&a.meta, syn::Meta::List(l) if l.tokens.to_string().replace(' ', "") == "feature=\"targets\""))
}

pub fn inline(text: String, known: &dyn Fn(&str) -> bool, notes: &mut Vec<String>) -> String {
    let original = text.clone();
    let mut text = text;
    let mut said = vec![];
    for round in 0.. {
        if round > 80 {
            return original;
        }
        let Ok(parsed) = syn::parse_file(&text) else { return original };
        let src = Src::new(text.clone());
        let mut c = Collect { src: &src, known, impl_of: None, out: vec![] };
        for i in &parsed.items {
            if plain_or_lexicon(crate::attrs_of(i)) {
                c.visit_item(i);
            }
        }
        let helpers = c.out;
        // a name that stands for two things is left alone
        let helpers: Vec<Helper> = helpers.iter().filter(|h| helpers.iter().filter(|o| o.name == h.name).count() == 1).cloned().collect();
        if helpers.is_empty() {
            break;
        }
        let mut calls = Calls { src: &src, helpers: &helpers, impl_of: None, tried: None, found: None, fresh: round };
        for i in &parsed.items {
            if plain_or_lexicon(crate::attrs_of(i)) {
                calls.visit_item(i);
            }
        }
        if let Some((h, r, new)) = calls.found {
            said.push(format!("{} inlined at a call", helpers[h].name));
            text.replace_range(r, &new);
            continue;
        }
        // what is called no more goes
        match helpers.iter().find(|h| uses(&text, &h.name) == 0) {
            Some(h) => {
                let _ = (&h.idents, h.closure);
                text.replace_range(h.whole.clone(), "");
            }
            None => break,
        }
    }
    notes.extend(said);
    text
}

// ---- local names

#[derive(Default)]
struct Names {
    order: Vec<String>,
    all: BTreeSet<String>,
    shorthand: BTreeSet<String>,
}

impl Names {
    fn bind(&mut self, n: String) {
        if !self.order.contains(&n) && n.starts_with(|c: char| c.is_lowercase()) {
            self.order.push(n);
        }
    }
    fn tokens(&mut self, ts: TokenStream) {
        idents(ts, &mut self.all);
    }
}

impl<'a> Visit<'a> for Names {
    fn visit_item(&mut self, i: &'a syn::Item) {
        if let syn::Item::Macro(m) = i {
            self.visit_macro(&m.mac);
        }
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.bind(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_field_value(&mut self, f: &'a syn::FieldValue) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(n) = &f.member {
                self.shorthand.insert(n.to_string());
            }
        }
        visit::visit_field_value(self, f);
    }
    fn visit_field_pat(&mut self, f: &'a syn::FieldPat) {
        if f.colon_token.is_none() {
            if let syn::Member::Named(n) = &f.member {
                self.shorthand.insert(n.to_string());
            }
        }
        visit::visit_field_pat(self, f);
    }
    fn visit_lit_str(&mut self, l: &'a syn::LitStr) {
        for p in l.value().split('{').skip(1) {
            self.shorthand.insert(p.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.tokens(m.tokens.clone());
        for l in idents_only_literals(m.tokens.clone()) {
            self.shorthand.insert(l);
        }
    }
    fn visit_ident(&mut self, i: &'a proc_macro2::Ident) {
        self.all.insert(i.to_string());
    }
}

fn idents_only_literals(ts: TokenStream) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for t in ts {
        match t {
            TokenTree::Literal(l) => {
                for p in l.to_string().split('{').skip(1) {
                    s.insert(p.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect());
                }
            }
            TokenTree::Group(g) => s.extend(idents_only_literals(g.stream())),
            _ => {}
        }
    }
    s
}

struct Fns<F: FnMut(String, &syn::Signature, &syn::Block)> {
    of: String,
    f: F,
}

impl<'a, F: FnMut(String, &syn::Signature, &syn::Block)> Visit<'a> for Fns<F> {
    fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
    fn visit_item_impl(&mut self, i: &'a syn::ItemImpl) {
        let t = i.trait_.as_ref().map_or(String::new(), |(_, t, _)| format!(" as {}", t.segments.last().unwrap().ident));
        self.of = format!("{}{t}::", crate::ty_name(&i.self_ty));
        visit::visit_item_impl(self, i);
        self.of.clear();
    }
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        (self.f)(f.sig.ident.to_string(), &f.sig, &f.block);
        visit::visit_item_fn(self, f);
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        (self.f)(format!("{}{}", self.of, f.sig.ident), &f.sig, &f.block);
        visit::visit_impl_item_fn(self, f);
    }
}

fn names_of(sig: &syn::Signature, block: &syn::Block) -> Names {
    let mut n = Names::default();
    for i in &sig.inputs {
        if let syn::FnArg::Typed(t) = i {
            n.visit_pat(&t.pat);
        }
    }
    n.visit_block(block);
    n
}

/// The names each function binds, in order.
pub fn locals(text: &str) -> Vec<(String, Vec<String>)> {
    let mut out = vec![];
    if let Ok(p) = syn::parse_file(text) {
        let mut v = Fns { of: String::new(), f: |k: String, s: &syn::Signature, b: &syn::Block| out.push((k, names_of(s, b).order)) };
        v.visit_file(&p);
    }
    out
}

struct Rename<'a> {
    src: &'a Src,
    from: &'a str,
    to: &'a str,
    edits: Vec<(Range<usize>, String)>,
}

impl Rename<'_> {
    fn one(&mut self, i: &proc_macro2::Ident) {
        if i == self.from {
            self.edits.push((self.src.range(i.span()), self.to.to_owned()));
        }
    }
    fn tokens(&mut self, ts: TokenStream) {
        let mut prev = String::new();
        for t in ts {
            match &t {
                TokenTree::Ident(i) if prev != "." && prev != ":" && prev != "$" => self.one(i),
                TokenTree::Group(g) => self.tokens(g.stream()),
                _ => {}
            }
            prev = t.to_string();
        }
    }
}

impl<'a> Visit<'a> for Rename<'_> {
    fn visit_item(&mut self, i: &'a syn::Item) {
        if let syn::Item::Macro(m) = i {
            self.visit_macro(&m.mac);
        }
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        self.one(&p.ident);
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if let Some(i) = p.path.get_ident() {
            self.one(i);
        }
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        self.tokens(m.tokens.clone());
    }
}

/// A local that has another name than the one the annotations know gets that one back.
pub fn rename(text: String, expected: &[(String, Vec<String>)], mentioned: &BTreeSet<String>, notes: &mut Vec<String>) -> String {
    let mut text = text;
    for _ in 0..20 {
        let Ok(parsed) = syn::parse_file(&text) else { return text };
        let src = Src::new(text.clone());
        let mut edits = vec![];
        let mut v = Fns {
            of: String::new(),
            f: |k: String, s: &syn::Signature, b: &syn::Block| {
                if !edits.is_empty() {
                    return;
                }
                let Some((_, want)) = expected.iter().find(|e| e.0 == k) else { return };
                let n = names_of(s, b);
                let have: Vec<String> = n.order.iter().filter(|x| !x.starts_with("__")).cloned().collect();
                let Some((from, to)) = align(want, &have).into_iter().find(|(_, to)| mentioned.contains(to)) else { return };
                if n.all.contains(&to) || n.shorthand.contains(&from) {
                    return;
                }
                let mut r = Rename { src: &src, from: &from, to: &to, edits: vec![] };
                for i in &s.inputs {
                    if let syn::FnArg::Typed(t) = i {
                        r.visit_pat(&t.pat);
                    }
                }
                r.visit_block(b);
                edits = r.edits;
                notes.push(format!("{k}: local {from} written as {to}"));
            },
        };
        v.visit_file(&parsed);
        if edits.is_empty() {
            break;
        }
        edits.sort_by_key(|e| std::cmp::Reverse(e.0.start));
        edits.dedup();
        for (r, t) in edits {
            text.replace_range(r, &t);
        }
    }
    text
}

/// Pairs (new name, expected name) at the same place between names that both lists have.
fn align(want: &[String], have: &[String]) -> Vec<(String, String)> {
    let mut out = vec![];
    let common: Vec<&String> = want.iter().filter(|w| have.contains(w)).collect();
    let gap = |l: &[String], a: Option<&String>, b: Option<&String>| -> Vec<String> {
        let s = a.map_or(0, |a| l.iter().position(|x| x == a).unwrap() + 1);
        let e = b.map_or(l.len(), |b| l.iter().position(|x| x == b).unwrap());
        if s <= e { l[s..e].to_vec() } else { vec![] }
    };
    for i in 0..=common.len() {
        let (a, b) = (i.checked_sub(1).map(|i| common[i]), common.get(i).copied());
        let (w, h) = (gap(want, a, b), gap(have, a, b));
        let w: Vec<_> = w.into_iter().filter(|x| !have.contains(x)).collect();
        let h: Vec<_> = h.into_iter().filter(|x| !want.contains(x)).collect();
        if w.len() == h.len() {
            out.extend(h.into_iter().zip(w));
        }
    }
    out
}

pub fn words(t: &str) -> BTreeSet<String> {
    t.split(|c: char| !c.is_alphanumeric() && c != '_').map(str::to_owned).collect()
}

// ---- loops in other forms

struct Loops<'a> {
    src: &'a Src,
    found: Option<(Range<usize>, String, String)>,
    fresh: usize,
    /// the body of the function
    body: Range<usize>,
    self_mut: bool,
}

fn ident_of(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        syn::Expr::Paren(p) => ident_of(&p.expr),
        _ => None,
    }
}

/// `X.next()`
fn next_of(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::MethodCall(m) if m.method == "next" && m.args.is_empty() => ident_of(&m.receiver),
        _ => None,
    }
}

/// P of `Some(P)`
fn some_of(p: &syn::Pat) -> Option<&syn::Pat> {
    match p {
        syn::Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => t.elems.first(),
        _ => None,
    }
}

fn is_break(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
        syn::Expr::Block(b) => b.label.is_none() && matches!(&*b.block.stmts, [syn::Stmt::Expr(e, _)] if is_break(e)),
        _ => false,
    }
}

fn is_none(p: &syn::Pat) -> bool {
    match p {
        syn::Pat::Ident(i) => i.ident == "None",
        syn::Pat::Path(p) => p.path.is_ident("None"),
        syn::Pat::Wild(_) => true,
        _ => false,
    }
}

/// What an expression assigns or borrows mutably, and whether it jumps.
#[derive(Default)]
struct Effects {
    assigned: BTreeSet<String>,
    /// handed on as they are: they may be mutable references
    passed: BTreeSet<String>,
    continues: bool,
    leaves: bool,
    /// a macro that may do anything
    hidden: bool,
    depth: usize,
}

impl Effects {
    fn pass<'e>(&mut self, args: impl Iterator<Item = &'e syn::Expr>) {
        self.passed.extend(args.filter_map(ident_of));
    }
    fn changes(&self, names: &BTreeSet<String>) -> bool {
        self.hidden || names.iter().any(|n| self.assigned.contains(n) || self.passed.contains(n))
    }
}

fn root(e: &syn::Expr) -> Option<String> {
    match e {
        syn::Expr::Path(_) => ident_of(e),
        syn::Expr::Field(f) => root(&f.base),
        syn::Expr::Index(f) => root(&f.expr),
        syn::Expr::Unary(u) => root(&u.expr),
        syn::Expr::Paren(p) => root(&p.expr),
        syn::Expr::Reference(p) => root(&p.expr),
        syn::Expr::MethodCall(m) => root(&m.receiver),
        _ => None,
    }
}

impl<'a> Visit<'a> for Effects {
    fn visit_expr_assign(&mut self, a: &'a syn::ExprAssign) {
        self.assigned.extend(root(&a.left));
        visit::visit_expr_assign(self, a);
    }
    fn visit_expr_binary(&mut self, b: &'a syn::ExprBinary) {
        use syn::BinOp::*;
        if matches!(b.op, AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitXorAssign(_) | BitAndAssign(_) | BitOrAssign(_) | ShlAssign(_) | ShrAssign(_)) {
            self.assigned.extend(root(&b.left));
        }
        visit::visit_expr_binary(self, b);
    }
    fn visit_expr_reference(&mut self, r: &'a syn::ExprReference) {
        if r.mutability.is_some() {
            self.assigned.extend(root(&r.expr));
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        // whether a method changes its receiver cannot be seen
        if !matches!(&*m.method.to_string(), "len" | "is_empty" | "clone" | "as_str" | "as_ref" | "iter" | "chars" | "get" | "first" | "last" | "contains") {
            self.assigned.extend(root(&m.receiver));
        }
        self.pass(m.args.iter());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        self.pass(c.args.iter());
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_continue(&mut self, c: &'a syn::ExprContinue) {
        self.continues |= self.depth == 0 || c.label.is_some();
    }
    fn visit_expr_return(&mut self, c: &'a syn::ExprReturn) {
        self.leaves = true;
        visit::visit_expr_return(self, c);
    }
    fn visit_expr_try(&mut self, c: &'a syn::ExprTry) {
        self.leaves = true;
        visit::visit_expr_try(self, c);
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.depth += 1;
        visit::visit_expr_for_loop(self, f);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, f: &'a syn::ExprWhile) {
        self.depth += 1;
        visit::visit_expr_while(self, f);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) {
        self.depth += 1;
        visit::visit_expr_loop(self, f);
        self.depth -= 1;
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        if m.tokens.to_string().contains('?') || idents_of(&m.tokens.to_string()).contains("return") {
            self.leaves = true;
        }
        let name = m.path.segments.last().map_or(String::new(), |s| s.ident.to_string());
        if !matches!(&*name, "matches" | "unreachable" | "panic" | "vec" | "format_args" | "write" | "writeln" | "format" | "debug_assert" | "assert") {
            self.hidden = true;
        }
    }
}

fn closure_of(e: &syn::Expr, n: usize) -> Option<&syn::ExprClosure> {
    match e {
        syn::Expr::Closure(c) if c.inputs.len() == n && c.asyncness.is_none() => Some(c),
        _ => None,
    }
}

fn untyped(p: &syn::Pat) -> &syn::Pat {
    match p {
        syn::Pat::Type(t) => &t.pat,
        p => p,
    }
}

impl Loops<'_> {
    fn text(&self, s: Span) -> String {
        self.src.text[self.src.range(s)].to_owned()
    }
    fn inner(&self, b: &syn::Block) -> String {
        let (o, c) = (self.src.range(b.brace_token.span.open()), self.src.range(b.brace_token.span.close()));
        self.src.text[o.end..c.start].to_owned()
    }
    fn inner_from(&self, b: &syn::Block, first: usize, last: usize) -> String {
        // the statements first..last
        if first >= last {
            return String::new();
        }
        let (a, z) = (self.src.range(b.stmts[first].span()).start, self.src.range(b.stmts[last - 1].span()).end);
        self.src.text[a..z].to_owned()
    }
    fn set(&mut self, r: Range<usize>, new: String, what: &str) {
        if self.found.is_none() {
            self.found = Some((r, new, what.to_owned()));
        }
    }
    fn label(&self, l: &Option<syn::Label>) -> String {
        l.as_ref().map_or(String::new(), |l| format!("{} ", self.text(l.span())))
    }

    fn while_loop(&mut self, w: &syn::ExprWhile, before: &[syn::Stmt], after: &[syn::Stmt]) {
        let whole = self.src.range(w.span());
        let label = self.label(&w.label);
        let body_ids = idents_of(&self.inner(&w.body));
        if let syn::Expr::Let(l) = &*w.cond {
            if let (Some(p), Some(x)) = (some_of(&l.pat), next_of(&l.expr)) {
                if !body_ids.contains(&x) {
                    let new = format!("{label}for {} in {x} {{{}}}", self.text(p.span()), self.inner(&w.body));
                    self.set(whole, new, "while let over next() written as for");
                }
            }
            return;
        }
        let syn::Expr::Binary(c) = &*w.cond else { return };
        let lit = |e: &syn::Expr, s: &str| matches!(e, syn::Expr::Lit(l) if matches!(&l.lit, syn::Lit::Int(i) if i.base10_digits() == s));
        let n = w.body.stmts.len();
        let step = |s: &syn::Stmt, v: &str, add: bool| match s {
            syn::Stmt::Expr(syn::Expr::Binary(b), _) => {
                let op = if add { matches!(b.op, syn::BinOp::AddAssign(_)) } else { matches!(b.op, syn::BinOp::SubAssign(_)) };
                op && ident_of(&b.left).as_deref() == Some(v) && lit(&b.right, "1")
            }
            syn::Stmt::Expr(syn::Expr::Assign(a), _) => match &*a.right {
                syn::Expr::Binary(b) => {
                    let op = if add { matches!(b.op, syn::BinOp::Add(_)) } else { matches!(b.op, syn::BinOp::Sub(_)) };
                    op && ident_of(&a.left).as_deref() == Some(v) && ident_of(&b.left).as_deref() == Some(v) && lit(&b.right, "1")
                }
                _ => false,
            },
            _ => false,
        };
        // where the counter comes from
        let start = |v: &str| {
            before.iter().rev().find_map(|s| match s {
                syn::Stmt::Local(l) => match (untyped(&l.pat), &l.init) {
                    (syn::Pat::Ident(p), Some(i)) if p.ident == v && p.mutability.is_some() && i.diverge.is_none() => Some((self.src.range(s.span()), &*i.expr)),
                    _ => None,
                },
                _ => None,
            })
        };
        let used = |ss: &[syn::Stmt], v: &str| ss.iter().any(|s| idents_of(&self.text(s.span())).contains(v));
        let mut up: Option<(String, &syn::Expr)> = None;
        match (&c.op, ident_of(&c.left), ident_of(&c.right)) {
            (syn::BinOp::Lt(_), Some(i), _) if n > 0 && step(&w.body.stmts[n - 1], &i, true) => up = Some((i, &c.right)),
            (syn::BinOp::Gt(_), _, Some(i)) if n > 0 && step(&w.body.stmts[n - 1], &i, true) => up = Some((i, &c.left)),
            _ => {}
        }
        if let Some((i, end)) = up {
            let Some((decl, a)) = start(&i) else { return };
            let mut e = Effects::default();
            for s in &w.body.stmts[..n - 1] {
                e.visit_stmt(s);
            }
            let ends = idents_of(&self.text(end.span()));
            // between the declaration and the loop the counter is not touched, and behind the loop not used
            let between = before.iter().filter(|s| self.src.range(s.span()).start > decl.start).any(|s| idents_of(&self.text(s.span())).contains(&i));
            if e.continues || e.assigned.contains(&i) || between || used(after, &i) || e.changes(&ends) || !pure(end) {
                return;
            }
            if !lit(a, "0") && !(pure(a) && self.src.text[decl.end..whole.start].trim().is_empty()) {
                return;
            }
            let body = self.inner_from(&w.body, 0, n - 1);
            let var = if idents_of(&body).contains(&i) { i.clone() } else { "_".into() };
            let between = self.src.text[decl.end..whole.start].to_owned();
            let new = format!("{between}{label}for {var} in {}..{} {{ {body} }}", self.text(a.span()), self.text(end.span()));
            self.set(decl.start..whole.end, new, "while with a counter written as for");
            return;
        }
        let down = match (&c.op, ident_of(&c.left), ident_of(&c.right)) {
            (syn::BinOp::Gt(_), Some(i), _) if lit(&c.right, "0") => Some(i),
            (syn::BinOp::Lt(_), _, Some(i)) if lit(&c.left, "0") => Some(i),
            _ => None,
        };
        if let Some(i) = down {
            let Some((decl, a)) = start(&i) else { return };
            if n == 0 {
                return;
            }
            let (lo, hi) = if step(&w.body.stmts[n - 1], &i, false) { (0, n - 1) } else if step(&w.body.stmts[0], &i, false) { (1, n) } else { return };
            let mut e = Effects::default();
            for s in &w.body.stmts[lo..hi] {
                e.visit_stmt(s);
            }
            let body = self.inner_from(&w.body, lo, hi);
            let between = before.iter().filter(|s| self.src.range(s.span()).start > decl.start).any(|s| idents_of(&self.text(s.span())).contains(&i));
            if (e.continues && lo == 0) || e.hidden || between || used(after, &i) || idents_of(&body).contains(&i) || !pure(a) || !self.src.text[decl.end..whole.start].trim().is_empty() {
                return;
            }
            let mid = self.src.text[decl.end..whole.start].to_owned();
            let new = format!("{mid}{label}for _ in 0..{} {{ {body} }}", self.text(a.span()));
            self.set(decl.start..whole.end, new, "while with a counter written as for");
        }
    }

    fn plain_loop(&mut self, l: &syn::ExprLoop) {
        let whole = self.src.range(l.span());
        let label = self.label(&l.label);
        let n = l.body.stmts.len();
        let rest = |this: &Self, x: &str, p: &syn::Pat, body: String| {
            (!idents_of(&body).contains(x)).then(|| format!("{label}for {} in {x} {{ {body} }}", this.text(p.span())))
        };
        let first = match l.body.stmts.first() {
            Some(s) => s,
            None => return,
        };
        let what = "loop over next() written as for";
        let new = match first {
            syn::Stmt::Local(d) => {
                let Some(i) = &d.init else { return };
                match (&i.diverge, &*i.expr) {
                    (Some((_, els)), e) if is_break(els) => match (some_of(&d.pat), next_of(e)) {
                        (Some(p), Some(x)) => rest(self, &x, p, self.inner_from(&l.body, 1, n)),
                        _ => None,
                    },
                    (None, syn::Expr::Match(m)) if m.arms.len() == 2 => {
                        let Some(x) = next_of(&m.expr) else { return };
                        let (a, b) = (&m.arms[0], &m.arms[1]);
                        let (s, o) = if some_of(&a.pat).is_some() { (a, b) } else { (b, a) };
                        let Some(p) = some_of(&s.pat) else { return };
                        if !is_none(&o.pat) || !is_break(&o.body) || s.guard.is_some() || o.guard.is_some() {
                            None
                        } else if self.text(p.span()) == self.text(s.body.span()) {
                            rest(self, &x, &d.pat, self.inner_from(&l.body, 1, n))
                        } else {
                            rest(self, &x, p, format!("let {} = {}; {}", self.text(d.pat.span()), self.text(s.body.span()), self.inner_from(&l.body, 1, n)))
                        }
                    }
                    _ => None,
                }
            }
            syn::Stmt::Expr(syn::Expr::Match(m), _) if n == 1 && m.arms.len() == 2 => {
                let Some(x) = next_of(&m.expr) else { return };
                let (a, b) = (&m.arms[0], &m.arms[1]);
                let (s, o) = if some_of(&a.pat).is_some() { (a, b) } else { (b, a) };
                let Some(p) = some_of(&s.pat) else { return };
                if is_none(&o.pat) && is_break(&o.body) && s.guard.is_none() && o.guard.is_none() { rest(self, &x, p, format!("{};", self.text(s.body.span()))) } else { None }
            }
            syn::Stmt::Expr(syn::Expr::If(i), _) if n == 1 => match (&*i.cond, &i.else_branch) {
                (syn::Expr::Let(c), Some((_, e))) if is_break(e) => match (some_of(&c.pat), next_of(&c.expr)) {
                    (Some(p), Some(x)) => rest(self, &x, p, self.inner(&i.then_branch)),
                    _ => None,
                },
                _ => None,
            },
            _ => None,
        };
        if let Some(new) = new {
            self.set(whole, new, what);
        }
    }

    /// `for i in 0..X.len() { let P = &X[i]; .. }`
    fn indexed(&mut self, f: &syn::ExprForLoop) {
        let (syn::Pat::Ident(i), syn::Expr::Range(r)) = (&*f.pat, &*f.expr) else { return };
        let (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) else { return };
        if self.text(a.span()) != "0" {
            return;
        }
        let syn::Expr::MethodCall(m) = &**b else { return };
        if m.method != "len" || !m.args.is_empty() {
            return;
        }
        let x = self.text(m.receiver.span());
        let Some(syn::Stmt::Local(l)) = f.body.stmts.first() else { return };
        let Some(init) = &l.init else { return };
        let syn::Expr::Reference(rf) = &*init.expr else { return };
        let syn::Expr::Index(ix) = &*rf.expr else { return };
        if rf.mutability.is_some() || init.diverge.is_some() || self.text(ix.expr.span()) != x || ident_of(&ix.index) != Some(i.ident.to_string()) {
            return;
        }
        let mut e = Effects::default();
        e.visit_block(&f.body);
        let Some(r) = root(&m.receiver) else { return };
        if !pure(&m.receiver) || (r != "self" || self.self_mut) && e.changes(&BTreeSet::from([r])) {
            return;
        }
        let body = self.inner_from(&f.body, 1, f.body.stmts.len());
        let label = self.label(&f.label);
        let p = self.text(l.pat.span());
        let new = if idents_of(&body).contains(&i.ident.to_string()) {
            format!("{label}for ({}, {p}) in {x}.iter().enumerate() {{ {body} }}", i.ident)
        } else {
            format!("{label}for {p} in {x}.iter() {{ {body} }}")
        };
        self.set(self.src.range(f.span()), new, "for over indices written as for over elements");
    }

    /// `let X = E; for P in X {..}` with no other use of X
    fn named(&mut self, before: &syn::Stmt, s: &syn::Stmt, after: &[syn::Stmt]) {
        let (syn::Stmt::Local(l), syn::Stmt::Expr(syn::Expr::ForLoop(f), _)) = (before, s) else { return };
        let (syn::Pat::Ident(x), Some(i)) = (&l.pat, &l.init) else { return };
        if i.diverge.is_some() || x.by_ref.is_some() || x.subpat.is_some() || ident_of(&f.expr) != Some(x.ident.to_string()) {
            return;
        }
        let name = x.ident.to_string();
        let used = |t: String| idents_of(&t).contains(&name);
        if used(self.inner(&f.body)) || after.iter().any(|a| used(self.text(a.span()))) || used(self.text(i.expr.span())) {
            return;
        }
        let (a, z) = (self.src.range(l.span()).start, self.src.range(f.span()));
        let e = self.src.range(f.expr.span());
        let new = format!("{}{}{}", &self.src.text[z.start..e.start], self.text(i.expr.span()), &self.src.text[e.end..z.end]);
        self.set(a..z.end, new, "what a loop goes over written in its head");
    }

    fn closure_body(&self, c: &syn::ExprClosure) -> String {
        self.text(c.body.span())
    }

    fn jumps(c: &syn::ExprClosure) -> bool {
        let mut e = Effects::default();
        e.visit_expr(&c.body);
        e.leaves
    }

    fn returns(c: &syn::ExprClosure) -> bool {
        let mut s = Scan::default();
        s.visit_expr(&c.body);
        s.leaves
    }

    /// a statement
    fn stmt(&mut self, e: &syn::Expr, semi: bool, last: bool, body: bool) {
        let whole = self.src.range(e.span());
        match e {
            syn::Expr::MethodCall(m) if m.args.len() == 1 && (semi || last) => match &*m.method.to_string() {
                "extend" if semi && pure(&m.receiver) => {
                    let x = self.text(m.receiver.span());
                    let (it, p, v) = match &m.args[0] {
                        syn::Expr::MethodCall(y) if y.method == "map" && y.args.len() == 1 => {
                            let it = self.text(y.receiver.span());
                            match &y.args[0] {
                                syn::Expr::Closure(c) if c.inputs.len() == 1 && !Self::jumps(c) => (it, self.text(untyped(&c.inputs[0]).span()), self.closure_body(c)),
                                syn::Expr::Path(f) => (it, format!("__e{}", self.fresh), format!("{}(__e{})", self.text(f.span()), self.fresh)),
                                _ => return,
                            }
                        }
                        y => (self.text(y.span()), format!("__e{}", self.fresh), format!("__e{}", self.fresh)),
                    };
                    let it = it.strip_suffix(".into_iter()").map_or(it.clone(), str::to_owned);
                    self.set(whole, format!("for {p} in {it} {{ {x}.push({v}); }}"), "extend written as for and push");
                }
                "for_each" => {
                    let Some(c) = closure_of(&m.args[0], 1) else { return };
                    if Self::jumps(c) {
                        return;
                    }
                    let new = format!("for {} in {} {{ {}; }}", self.text(untyped(&c.inputs[0]).span()), self.text(m.receiver.span()), self.closure_body(c));
                    self.set(whole, new, "for_each written as for");
                }
                "try_for_each" if last && !semi && body => {
                    let Some(c) = closure_of(&m.args[0], 1) else { return };
                    if Self::returns(c) {
                        return;
                    }
                    let new = format!("for {} in {} {{ ({})?; }} Ok(())", self.text(untyped(&c.inputs[0]).span()), self.text(m.receiver.span()), self.closure_body(c));
                    self.set(whole, new, "try_for_each written as for");
                }
                _ => {}
            },
            syn::Expr::Try(t) if semi => {
                let syn::Expr::MethodCall(m) = &*t.expr else { return };
                if m.method != "try_for_each" || m.args.len() != 1 {
                    return;
                }
                let Some(c) = closure_of(&m.args[0], 1) else { return };
                if Self::returns(c) {
                    return;
                }
                let new = format!("for {} in {} {{ ({})?; }}", self.text(untyped(&c.inputs[0]).span()), self.text(m.receiver.span()), self.closure_body(c));
                self.set(whole, new, "try_for_each written as for");
            }
            _ => {}
        }
    }

    fn fold_of<'e>(&self, e: &'e syn::Expr) -> Option<(&'e syn::ExprMethodCall, &'e syn::ExprClosure, String, String)> {
        let syn::Expr::MethodCall(m) = e else { return None };
        if m.method != "fold" || m.args.len() != 2 {
            return None;
        }
        let c = closure_of(&m.args[1], 2)?;
        if Self::jumps(c) || !calm(&m.receiver) {
            return None;
        }
        let acc = match untyped(&c.inputs[0]) {
            syn::Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => p.ident.to_string(),
            _ => return None,
        };
        Some((m, c, acc, self.text(untyped(&c.inputs[1]).span())))
    }
}

/// neither changes anything nor sees a change that is made while it is evaluated
fn calm(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Range(r) => r.start.as_deref().is_none_or(pure) && r.end.as_deref().is_none_or(pure),
        syn::Expr::Paren(p) => calm(&p.expr),
        syn::Expr::MethodCall(m) => matches!(&*m.method.to_string(), "iter" | "enumerate" | "rev" | "chars" | "into_iter" | "as_str" | "len") && m.args.is_empty() && calm(&m.receiver),
        e => pure(e),
    }
}

/// reads only
fn pure(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Path(_) | syn::Expr::Lit(_) => true,
        syn::Expr::Field(f) => pure(&f.base),
        syn::Expr::Paren(p) => pure(&p.expr),
        syn::Expr::Unary(u) => pure(&u.expr),
        syn::Expr::Reference(r) => r.mutability.is_none() && pure(&r.expr),
        syn::Expr::Cast(c) => pure(&c.expr),
        syn::Expr::Binary(b) => pure(&b.left) && pure(&b.right),
        syn::Expr::MethodCall(m) => matches!(&*m.method.to_string(), "len" | "min" | "max" | "saturating_sub") && pure(&m.receiver) && m.args.iter().all(pure),
        _ => false,
    }
}

impl<'a> Visit<'a> for Loops<'_> {
    fn visit_item_mod(&mut self, _: &'a syn::ItemMod) {}
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        let old = (std::mem::replace(&mut self.body, self.src.range(f.block.span())), std::mem::replace(&mut self.self_mut, false));
        visit::visit_item_fn(self, f);
        (self.body, self.self_mut) = old;
    }
    fn visit_impl_item_fn(&mut self, f: &'a syn::ImplItemFn) {
        self.body = self.src.range(f.block.span());
        self.self_mut = matches!(f.sig.inputs.first(), Some(syn::FnArg::Receiver(r)) if r.mutability.is_some() || r.colon_token.is_some());
        visit::visit_impl_item_fn(self, f);
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
        self.indexed(f);
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_loop(&mut self, l: &'a syn::ExprLoop) {
        self.plain_loop(l);
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        let e = syn::Expr::MethodCall(m.clone());
        if let Some((m, c, acc, p)) = self.fold_of(&e) {
            let new = format!("({{ let mut {acc} = {}; for {p} in {} {{ {acc} = {}; }} {acc} }})", self.text(m.args[0].span()), self.text(m.receiver.span()), self.closure_body(c));
            self.set(self.src.range(m.span()), new, "fold written as for");
        }
    }
    fn visit_block(&mut self, b: &'a syn::Block) {
        for (n, s) in b.stmts.iter().enumerate() {
            if n > 0 {
                self.named(&b.stmts[n - 1], s, &b.stmts[n + 1..]);
            }
            match s {
                syn::Stmt::Expr(syn::Expr::While(w), _) => self.while_loop(w, &b.stmts[..n], &b.stmts[n + 1..]),
                syn::Stmt::Expr(e, semi) => self.stmt(e, semi.is_some(), n + 1 == b.stmts.len(), self.src.range(b.span()) == self.body),
                syn::Stmt::Local(l) => {
                    if let (syn::Pat::Ident(p), Some(i)) = (untyped(&l.pat), &l.init) {
                        if let (Some((m, c, acc, q)), None) = (self.fold_of(&i.expr), &i.diverge) {
                            let ty = match &l.pat {
                                syn::Pat::Type(t) => format!(": {}", self.text(t.ty.span())),
                                _ => String::new(),
                            };
                            let name = p.ident.to_string();
                            let bind = if acc == name { String::new() } else { format!("let {acc} = {name}; ") };
                            let body = self.closure_body(c);
                            // the name must not mean something else in what is folded
                            if acc == name || !idents_of(&body).contains(&name) && !idents_of(&self.text(m.receiver.span())).contains(&name) {
                                let new = format!("let mut {name}{ty} = {}; for {q} in {} {{ {bind}{name} = {body}; }}", self.text(m.args[0].span()), self.text(m.receiver.span()));
                                self.set(self.src.range(s.span()), new, "fold written as for");
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        visit::visit_block(self, b);
    }
}

pub fn loops(text: String, notes: &mut Vec<String>) -> String {
    let mut text = text;
    for fresh in 0..60 {
        let Ok(parsed) = syn::parse_file(&text) else { return text };
        let src = Src::new(text.clone());
        let mut l = Loops { src: &src, found: None, fresh, body: 0..0, self_mut: true };
        for i in &parsed.items {
            if !crate::attrs_of(i).iter().any(|a| a.path().is_ident("cfg")) {
                l.visit_item(i);
            }
        }
        let Some((r, new, what)) = l.found else { break };
        text.replace_range(r, &new);
        notes.push(what);
    }
    text
}

/// The heads of the loops of each function, in order.
pub fn heads(src: &Src, b: &syn::Block) -> Vec<(usize, String)> {
    struct H<'a> {
        src: &'a Src,
        out: Vec<(usize, String)>,
    }
    impl H<'_> {
        fn push(&mut self, whole: Span, head: Option<Span>) {
            let t = head.map_or("loop".to_owned(), |h| self.src.text[self.src.range(h)].split_whitespace().collect::<Vec<_>>().join(" "));
            self.out.push((self.src.range(whole).start, t));
        }
    }
    impl<'a> Visit<'a> for H<'_> {
        fn visit_item(&mut self, _: &'a syn::Item) {}
        fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) {
            self.push(f.span(), Some(f.expr.span()));
            visit::visit_expr_for_loop(self, f);
        }
        fn visit_expr_while(&mut self, f: &'a syn::ExprWhile) {
            self.push(f.span(), Some(f.cond.span()));
            visit::visit_expr_while(self, f);
        }
        fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) {
            self.push(f.span(), None);
            visit::visit_expr_loop(self, f);
        }
    }
    let mut h = H { src, out: vec![] };
    h.visit_block(b);
    h.out
}

pub fn all_heads(text: &str) -> Vec<(String, Vec<String>)> {
    let mut out = vec![];
    if let Ok(p) = syn::parse_file(text) {
        let src = Src::new(text.to_owned());
        let mut v = Fns { of: String::new(), f: |k: String, _: &syn::Signature, b: &syn::Block| out.push((plain(&k), heads(&src, b).into_iter().map(|h| h.1).collect::<Vec<_>>())) };
        v.visit_file(&p);
    }
    out
}

/// Which loop under contract each loop of the source is: by their heads, between two that are found by their place.
pub fn pair(want: &[String], have: &[String]) -> Vec<Option<usize>> {
    if want.len() == have.len() {
        return (0..have.len()).map(Some).collect();
    }
    // longest common subsequence of the heads
    let (n, m) = (have.len(), want.len());
    let mut t = vec![vec![0usize; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if have[i] == want[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let mut out = vec![None; n];
    let (mut i, mut j) = (0, 0);
    while i < n && j < m {
        if have[i] == want[j] && t[i][j] == t[i + 1][j + 1] + 1 {
            out[i] = Some(j);
            i += 1;
            j += 1;
        } else if t[i + 1][j] >= t[i][j + 1] {
            i += 1;
        } else {
            j += 1;
        }
    }
    // gaps of equal length
    let mut k = 0;
    while k < n {
        if out[k].is_some() {
            k += 1;
            continue;
        }
        let e = (k..n).find(|x| out[*x].is_some()).unwrap_or(n);
        let lo = if k == 0 { 0 } else { out[k - 1].unwrap() + 1 };
        let hi = if e == n { m } else { out[e].unwrap() };
        if hi - lo == e - k {
            for x in k..e {
                out[x] = Some(lo + x - k);
            }
        }
        k = e;
    }
    out
}

/// `T as Trait::f` is `T::f` in the annotations
fn plain(k: &str) -> String {
    match k.split_once(" as ") {
        Some((t, r)) => format!("{t}::{}", r.split_once("::").map_or(r, |x| x.1)),
        None => k.to_owned(),
    }
}
