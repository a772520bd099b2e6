//! Mechanical extraction of /repo/src into a Verus crate.
//!
//! usage: extract SRC_DIR SPEC_DIR UNIT_FILE OUT_DIR
//!
//! The text of every item is the text of the source file.  The rewrites that are applied are
//! listed in DESIGN.md ("What the extraction changes"); every application is written to
//! OUT_DIR/report.json.
mod ann;
mod derive;
mod mac;
mod norm;

use ann::{Ann, FnAnn, Unit};
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::ops::Range;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Default)]
pub struct Report {
    contracts: Vec<(String, String)>,
    uncontracted: Vec<(String, String)>,
    rewrites: Vec<(String, String)>,
    dropped: Vec<(String, String)>,
    lost: Vec<String>,
}

/// Byte offsets of line starts, to translate spans.
struct Src {
    text: String,
    lines: Vec<usize>,
}

impl Src {
    fn new(text: String) -> Self {
        let mut lines = vec![0];
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push(i + 1);
            }
        }
        Self { text, lines }
    }
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let start = self.lines[lc.line - 1];
        let line = &self.text[start..];
        start + line.char_indices().nth(lc.column).map_or(line.len(), |(i, _)| i)
    }
    fn range(&self, s: Span) -> Range<usize> {
        self.off(s.start())..self.off(s.end())
    }
}

#[derive(Clone)]
struct Edit {
    range: Range<usize>,
    text: String,
}

struct Ctx<'a> {
    src: &'a Src,
    file: String,
    ann: &'a Ann,
    unit: &'a Unit,
    mode: String,
    edits: Vec<Edit>,
    hoisted: Vec<Range<usize>>,
    lifted: Vec<(Range<usize>, String)>,
    report: &'a mut Report,
    used: &'a mut BTreeSet<String>,
}

impl<'a> Ctx<'a> {
    fn insert(&mut self, at: usize, text: impl Into<String>) {
        self.edits.push(Edit { range: at..at, text: text.into() });
    }
    fn replace(&mut self, range: Range<usize>, text: impl Into<String>) {
        self.edits.push(Edit { range, text: text.into() });
    }
    fn render(&self, range: Range<usize>) -> String {
        // Deletions of hoisted pieces that contain the whole range do not apply.
        let mut es: Vec<&Edit> = self
            .edits
            .iter()
            .filter(|e| e.range.start >= range.start && e.range.end <= range.end)
            .filter(|e| !(e.text.is_empty() && e.range == range))
            .collect();
        es.sort_by_key(|e| (e.range.start, e.range.end != e.range.start));
        let mut out = String::new();
        let mut pos = range.start;
        for e in es {
            if e.range.start < pos {
                continue; // inside of a deleted piece
            }
            out.push_str(&self.src.text[pos..e.range.start]);
            out.push_str(&e.text);
            pos = e.range.end;
        }
        out.push_str(&self.src.text[pos..range.end]);
        out
    }
    fn note(&mut self, what: &str) {
        self.report.rewrites.push((self.file.clone(), what.to_owned()));
    }
}

/// Lambda-lifts, hoists, loops, closures of one function body.
struct BodyVisit<'b, 'a> {
    cx: &'b mut Ctx<'a>,
    key: String,
    ann: Option<FnAnn>,
    loops: usize,
    /// which loop under contract a loop is, by where it starts
    paired: BTreeMap<usize, Option<usize>>,
    closures: usize,
    lifts: BTreeMap<String, String>,
    inherits: Option<String>,
    char_closure: bool,
}

fn is_local(attrs: &[syn::Attribute]) -> bool {
    let _ = attrs;
    true
}

impl<'b, 'a> BodyVisit<'b, 'a> {
    fn loop_common(&mut self, body: &syn::Block, for_loop: Option<&syn::ExprForLoop>, label: Option<&syn::Label>, start: usize) {
        self.loops += 1;
        let n = self.paired.get(&start).copied().flatten().unwrap_or(usize::MAX);
        let open = self.cx.src.range(body.brace_token.span.open());
        let close = self.cx.src.range(body.brace_token.span.close());
        let la = self.ann.as_ref().and_then(|a| a.loops.get(&n)).cloned().unwrap_or_default();
        if let Some(f) = for_loop {
            if la.desugar {
                // for PAT in EXPR { body }  =>  { let mut it = EXPR; loop { let PAT = match it.next() {..}; body } }
                let l = label.map_or(String::new(), |l| format!("{} ", self.cx.src.text[self.cx.src.range(l.span())].to_owned()));
                let pat = self.cx.src.text[self.cx.src.range(f.pat.span())].to_owned();
                let ex = self.cx.src.range(f.expr.span());
                let from = label.map_or(self.cx.src.range(f.for_token.span()).start, |l| self.cx.src.range(l.span()).start);
                self.cx.replace(from..ex.start, "let mut __it = ".to_owned());
                self.cx.replace(ex.end..open.start, format!(";\n{} {l}loop\n{}\n", la.before, la.header));
                let mut en = None;
                if let syn::Expr::MethodCall(m) = &*f.expr {
                    if m.method == "enumerate" && m.args.is_empty() {
                        en = Some(self.cx.src.range(m.receiver.span()).end..ex.end);
                    }
                }
                if let Some(r) = en {
                    // .enumerate() is a counter beside the iterator
                    self.cx.replace(r, "");
                    self.cx.insert(ex.end, ";\nlet mut __n: usize = 0");
                    let k = format!("{}: enumerate() written as a counter", self.key);
                    self.cx.note(&k);
                    self.cx.insert(open.end, format!("\n{}\nlet {pat} = match __it.next() {{ Some(__v) => (__n, __v), None => break }};\n__n = __n + 1;\n{}\n", la.begin, la.begin2));
                } else {
                    self.cx.insert(open.end, format!("\n{}\nlet {pat} = match __it.next() {{ Some(__v) => __v, None => break }};\n{}\n", la.begin, la.begin2));
                }
                self.cx.insert(close.start, la.end.clone());
        if !la.after.is_empty() {
            self.cx.insert(close.end, format!("\n{}\n", la.after));
        }
                let k = format!("{}: for-loop desugared to loop + next()", self.key);
                self.cx.note(&k);
                return;
            }
            if let Some(it) = &la.iter {
                let at = self.cx.src.range(f.expr.span()).start;
                self.cx.insert(at, format!("{it}: "));
            }
        }
        if !la.before.is_empty() {
            self.cx.insert(start, la.before.clone());
        }
        self.cx.insert(open.start, format!("\n{}\n", la.header));
        self.cx.insert(open.end, format!("\n{}{}", la.begin, la.begin2));
        self.cx.insert(close.start, la.end.clone());
        if !la.after.is_empty() {
            self.cx.insert(close.end, format!("\n{}\n", la.after));
        }
    }
}

impl<'b, 'a, 'ast> Visit<'ast> for BodyVisit<'b, 'a> {
    fn visit_item(&mut self, i: &'ast syn::Item) {
        // nested items are handled by their own pass
        match i {
            syn::Item::Fn(_) | syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Const(_) => {
                let r = self.cx.src.range(i.span());
                let what = match i {
                    syn::Item::Fn(f) => format!("{}: nested fn {} hoisted", self.key, f.sig.ident),
                    syn::Item::Struct(s) => format!("{}: nested struct {} hoisted", self.key, s.ident),
                    syn::Item::Const(c) => format!("{}: nested const {} hoisted", self.key, c.ident),
                    _ => format!("{}: nested item hoisted", self.key),
                };
                self.cx.note(&what);
                self.cx.replace(r.clone(), "");
                self.cx.hoisted.push(r);
                if let syn::Item::Fn(f) = i {
                    let key = f.sig.ident.to_string();
                    do_fn(self.cx, &key, &f.sig, Some(&f.block), &f.attrs, false);
                }
            }
            _ => {}
        }
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
            if let syn::Expr::Closure(c) = &*init.expr {
                let name = p.ident.to_string();
                if let Some(caps) = self.lifts.get(&name).cloned() {
                    // let NAME = |args| -> R { body };  =>  fn NAME(captures, args) -> R { body }
                    let whole = self.cx.src.range(l.span());
                    let params: Vec<String> =
                        c.inputs.iter().map(|i| self.cx.src.text[self.cx.src.range(i.span())].to_owned()).collect();
                    let ret = match &c.output {
                        syn::ReturnType::Default => None,
                        syn::ReturnType::Type(_, t) => Some(self.cx.src.text[self.cx.src.range(t.span())].to_owned()),
                    };
                    let a = self.cx.ann.fns.get(&name).cloned();
                    if a.is_none() {
                        self.cx.report.lost.push(format!("no contract for lifted closure {name}"));
                    }
                    let a = a.unwrap_or_default();
                    let rname = a.ret.clone().unwrap_or("r".into());
                    let body = self.cx.src.range(c.body.span());
                    let ret = ret.map_or(String::new(), |t| format!(" -> ({rname}: {t})"));
                    let external = if self.cx.mode == "contract" { "#[verifier::external_body]\n" } else { &*a.attrs };
                    let header = format!("{external}fn {name}({caps}{}){ret}\n{}\n", params.join(", "), a.sig);
                    let is_block = matches!(&*c.body, syn::Expr::Block(_));
                    if let syn::Expr::Block(b) = &*c.body {
                        let open = self.cx.src.range(b.block.brace_token.span.open());
                        self.cx.insert(open.end, format!("\n{}\n", a.begin));
                    }
                    let saved = (std::mem::replace(&mut self.loops, 0), std::mem::replace(&mut self.closures, 0), self.ann.take());
                    self.ann = Some(a.clone());
                    let key = std::mem::replace(&mut self.key, name.clone());
                    visit::visit_expr(self, &c.body);
                    finish_body(self);
                    self.key = key;
                    (self.loops, self.closures, self.ann) = saved;
                    self.cx.used.insert(name.clone());
                    self.cx.report.contracts.push((self.cx.file.clone(), name.clone()));
                    let what = format!("{}: closure {name} lifted to a function with captures ({caps})", self.key);
                    self.cx.note(&what);
                    self.cx.replace(whole, "");
                    self.cx.lifted.push((body, if is_block { header } else { format!("{header}{{") }));
                    return;
                }
            }
        }
        visit::visit_local(self, l);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(id) = p.path.get_ident() {
                if let Some(t) = self.ann.as_ref().and_then(|a| a.calls.get(&id.to_string())).cloned() {
                    // f(x)  =>  the template, with the arguments inside
                    let (pre, post) = t.split_once("$ARGS").unwrap_or((&t, ""));
                    let open = self.cx.src.range(c.paren_token.span.open());
                    let all = self.cx.src.range(c.span());
                    let close = self.cx.src.range(c.paren_token.span.close());
                    self.cx.replace(all.start..open.end, pre);
                    self.cx.replace(close, post);
                    let k = format!("{}: call of {id} written as {t}", self.key);
                    self.cx.note(&k);
                    visit::visit_expr_call(self, c);
                    return;
                }
                if let Some(caps) = self.lifts.get(&id.to_string()).cloned() {
                    let names: String = caps
                        .split(',')
                        .filter(|s| s.contains(':'))
                        .map(|s| format!("{}, ", s.split(':').next().unwrap().trim()))
                        .collect();
                    let open = self.cx.src.range(c.paren_token.span.open());
                    self.cx.insert(open.end, names);
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(f) = p.path.segments.first() {
            if f.ident == "SmallVec" && f.arguments.is_empty() && p.path.segments.len() == 2 {
                let r = self.cx.src.range(f.ident.span());
                self.cx.replace(r, "Vec");
                let k = format!("{}: SmallVec::{} written as Vec::{}", self.key, p.path.segments[1].ident, p.path.segments[1].ident);
                self.cx.note(&k);
            }
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_for_loop(&mut self, f: &'ast syn::ExprForLoop) {
        let at = self.cx.src.range(f.span()).start;
        self.loop_common(&f.body, Some(f), f.label.as_ref(), at);
        visit::visit_expr_for_loop(self, f);
    }
    fn visit_expr_while(&mut self, f: &'ast syn::ExprWhile) {
        let at = self.cx.src.range(f.span()).start;
        self.loop_common(&f.body, None, None, at);
        visit::visit_expr_while(self, f);
    }
    fn visit_expr_loop(&mut self, f: &'ast syn::ExprLoop) {
        let at = self.cx.src.range(f.span()).start;
        self.loop_common(&f.body, None, None, at);
        visit::visit_expr_loop(self, f);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        visit::visit_arm(self, a);
        if let (syn::Pat::Or(p), Some(_)) = (&a.pat, &a.guard) {
            // P | Q if G => E  =>  P if G => E, Q if G => E
            let all = self.cx.src.range(a.span());
            let pat = self.cx.src.range(p.span());
            let rest = self.cx.render(pat.end..all.end);
            let rest = rest.trim_end().trim_end_matches(',').to_owned();
            let arms: Vec<String> =
                p.cases.iter().map(|c| format!("{}{rest}", &self.cx.src.text[self.cx.src.range(c.span())])).collect();
            self.cx.replace(all, format!("{},", arms.join(",\n")));
            let k = format!("{}: a guarded arm of {} patterns written as {} arms", self.key, arms.len(), arms.len());
            self.cx.note(&k);
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        if m.path.is_ident("write") {
            self.format(m.tokens.clone(), self.cx.src.range(m.span()), None);
        }
        if m.path.is_ident("matches") {
            // matches!(e, P | Q if g)  =>  match e { P if g => true, Q if g => true, _ => false }
            let parse = |input: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat, Option<syn::Expr>)> {
                let e = input.parse()?;
                input.parse::<syn::Token![,]>()?;
                let p = syn::Pat::parse_multi_with_leading_vert(input)?;
                let g = if input.peek(syn::Token![if]) {
                    input.parse::<syn::Token![if]>()?;
                    Some(input.parse()?)
                } else {
                    None
                };
                let _: Option<syn::Token![,]> = input.parse()?;
                Ok((e, p, g))
            };
            if let Ok((e, syn::Pat::Or(p), Some(g))) = syn::parse::Parser::parse2(parse, m.tokens.clone()) {
                let t = |s: Span| self.cx.src.text[self.cx.src.range(s)].to_owned();
                let (e, g) = (t(e.span()), t(g.span()));
                let arms: String = p.cases.iter().map(|c| format!("{} if {g} => true, ", t(c.span()))).collect();
                self.cx.replace(self.cx.src.range(m.span()), format!("(match {e} {{ {arms}_ => false }})"));
                let k = format!("{}: matches! with a guard and {} patterns written as a match", self.key, p.cases.len());
                self.cx.note(&k);
            }
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        if m.method == "write_fmt" && m.args.len() == 1 {
            if let syn::Expr::Macro(a) = &m.args[0] {
                if a.mac.path.is_ident("format_args") {
                    let rec = self.cx.src.text[self.cx.src.range(m.receiver.span())].to_owned();
                    self.format(a.mac.tokens.clone(), self.cx.src.range(m.span()), Some(rec));
                    return;
                }
            }
        }
        if let Some(path) = self.ann.as_ref().and_then(|a| a.methods.get(&m.method.to_string())).cloned() {
            // x.m(y)  =>  path(x, y)
            let rec = self.cx.src.range(m.receiver.span());
            let open = self.cx.src.range(m.paren_token.span.open());
            self.cx.insert(rec.start, format!("{path}("));
            self.cx.replace(rec.end..open.end, if m.args.is_empty() { "" } else { ", " });
            let k = format!("{}: .{}(..) written as {path}(..)", self.key, m.method);
            self.cx.note(&k);
            visit::visit_expr_method_call(self, m);
            return;
        }
        if self.combinator(m) {
            return;
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let n = self.closures;
        self.closures += 1;
        if let Some(h) = self.ann.as_ref().and_then(|a| a.closures.get(&n)).cloned() {
            self.closure_header(c, &h);
        } else {
            let auto = match (&c.inputs.first(), c.inputs.len()) {
                (Some(syn::Pat::Type(t)), 1) if self.text(t.ty.span()) == "char" => Some(&*t.pat),
                (Some(p @ syn::Pat::Ident(_)), 1) if self.char_closure => Some(*p),
                _ => None,
            };
            match (auto, self.spec_of(&c.body)) {
                (Some(p), Some(sp)) => {
                    let h = format!("|{}: char| -> (b: bool) ensures b == ({sp})", self.text(p.span()));
                    self.closures -= 1;
                    self.closure_header(c, &h);
                    let k = format!("{}: the closure {} states its own result", self.key, self.text(c.span()));
                    self.cx.note(&k);
                }
                _ => {}
            }
        }
        visit::visit_expr(self, &c.body);
    }
}

/// Whether an expression may leave the closure it stands in.
fn leaves(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'ast> Visit<'ast> for L {
        fn visit_expr_return(&mut self, _: &'ast syn::ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast syn::ExprTry) {
            self.0 = true;
        }
        fn visit_macro(&mut self, m: &'ast syn::Macro) {
            // an unknown macro may hide a return
            self.0 |= !["matches", "unreachable", "panic", "format_args", "write", "vec"].iter().any(|n| m.path.is_ident(n));
        }
        fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}

impl<'b, 'a> BodyVisit<'b, 'a> {
    fn text(&self, s: Span) -> String {
        self.cx.src.text[self.cx.src.range(s)].to_owned()
    }
    /// A boolean expression over a character, as a specification.
    fn spec_of(&self, e: &syn::Expr) -> Option<String> {
        use syn::Expr::*;
        Some(match e {
            Lit(l) => self.text(l.span()),
            Path(p) if p.path.get_ident().is_some() => self.text(p.span()),
            Paren(p) => format!("({})", self.spec_of(&p.expr)?),
            Unary(u) if matches!(u.op, syn::UnOp::Not(_)) => format!("!({})", self.spec_of(&u.expr)?),
            Unary(u) if matches!(u.op, syn::UnOp::Deref(_)) => format!("*({})", self.spec_of(&u.expr)?),
            Binary(b) => {
                use syn::BinOp::*;
                match b.op {
                    And(_) | Or(_) | Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => {}
                    _ => return None,
                }
                format!("({} {} {})", self.spec_of(&b.left)?, self.text(b.op.span()), self.spec_of(&b.right)?)
            }
            Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
                syn::Stmt::Expr(e, None) => self.spec_of(e)?,
                _ => return None,
            },
            MethodCall(m) if m.args.is_empty() => {
                let x = self.spec_of(&m.receiver)?;
                let range = |a: char, b: char| format!("('{a}' <= {x} && {x} <= '{b}')");
                match &*m.method.to_string() {
                    "is_whitespace" => format!("crate::ustr::is_ws({x})"),
                    "is_ascii_digit" => range('0', '9'),
                    "is_ascii_lowercase" => range('a', 'z'),
                    "is_ascii_uppercase" => range('A', 'Z'),
                    "is_ascii_alphabetic" => format!("({} || {})", range('a', 'z'), range('A', 'Z')),
                    "is_ascii_alphanumeric" => format!("({} || {} || {})", range('a', 'z'), range('A', 'Z'), range('0', '9')),
                    _ => return None,
                }
            }
            Call(c) => {
                let Path(p) = &*c.func else { return None };
                let spec = self.cx.ann.fns.get(&p.path.get_ident()?.to_string())?.spec.clone()?;
                let args = c.args.iter().map(|a| self.spec_of(a)).collect::<Option<Vec<_>>>()?;
                format!("{spec}({})", args.join(", "))
            }
            Macro(m) if m.mac.path.is_ident("matches") => {
                let parse = |input: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Pat)> {
                    let e = input.parse()?;
                    input.parse::<syn::Token![,]>()?;
                    let p = syn::Pat::parse_multi_with_leading_vert(input)?;
                    let _: Option<syn::Token![,]> = input.parse()?;
                    Ok((e, p))
                };
                let (e, p) = syn::parse::Parser::parse2(parse, m.mac.tokens.clone()).ok()?;
                let x = self.spec_of(&e)?;
                let cases: Vec<syn::Pat> = match p {
                    syn::Pat::Or(o) => o.cases.into_iter().collect(),
                    p => vec![p],
                };
                let mut out = vec![];
                for p in cases {
                    out.push(match p {
                        syn::Pat::Lit(l) => format!("{x} == {}", self.text(l.span())),
                        syn::Pat::Range(r) if matches!(r.limits, syn::RangeLimits::Closed(_)) => {
                            format!("({} <= {x} && {x} <= {})", self.text(r.start?.span()), self.text(r.end?.span()))
                        }
                        _ => return None,
                    });
                }
                format!("({})", out.join(" || "))
            }
            _ => return None,
        })
    }
    /// A combinator of Option, Result or bool with a closure literal: written as the match that defines it.
    fn combinator(&mut self, m: &syn::ExprMethodCall) -> bool {
        let closure = |i: usize| match m.args.get(i) {
            Some(syn::Expr::Closure(c)) if c.capture.is_none() && !leaves(&c.body) => Some(c),
            _ => None,
        };
        let method = m.method.to_string();
        let pat = |s: &Self, c: &syn::ExprClosure| -> String {
            let one = |p: &syn::Pat| match p {
                syn::Pat::Type(t) => s.text(t.pat.span()),
                p => s.text(p.span()),
            };
            c.inputs.iter().map(one).collect::<Vec<_>>().join(", ")
        };
        const SPLIT: &str = "crate::norm::Split::split(";
        // before the receiver, between it and the (first) body, behind the last body
        let two = |s: &Self, a: (&str, &str, &str, &str)| {
            let c = closure(0)?;
            let p = pat(s, c);
            (c.inputs.len() == a.3.parse::<usize>().unwrap_or(c.inputs.len())).then(|| (c, a.0.to_owned(), a.1.replace("$P", &p), a.2.to_owned()))
        };
        let arity = closure(0).map_or(0, |c| c.inputs.len());
        let plain = match (&*method, m.args.len(), arity) {
            ("map", 1, 1) => two(self, ("(match crate::norm::Split::split(", ") { (Err(__e), __m) => __m.bad(__e), (Ok($P), __m) => __m.good(", ") })", "1")),
            ("and_then", 1, 1) => two(self, ("(match crate::norm::Split::split(", ") { (Err(__e), __m) => __m.bad(__e), (Ok($P), __m) => __m.flat(", ") })", "1")),
            ("map_err", 1, 1) => two(self, ("(match ", " { Ok(__v) => Ok(__v), Err($P) => Err(", ") })", "1")),
            ("ok_or_else", 1, 0) => two(self, ("(match ", " { Some(__v) => Ok(__v), None => Err(", ") })", "0")),
            ("unwrap_or_else", 1, 0) => two(self, ("(match ", " { Some(__v) => __v, None => ", " })", "0")),
            ("unwrap_or_else", 1, 1) => two(self, ("(match ", " { Ok(__v) => __v, Err($P) => ", " })", "1")),
            ("or_else", 1, 0) => two(self, ("(match ", " { Some(__v) => Some(__v), None => ", " })", "0")),
            ("or_else", 1, 1) => two(self, ("(match ", " { Ok(__v) => Ok(__v), Err($P) => ", " })", "1")),
            ("is_some_and", 1, 1) => two(self, ("(match ", " { None => false, Some($P) => ", " })", "1")),
            ("filter", 1, 1) => two(self, ("(match ", " { None => None, Some(__v) => if (match &__v { $P => ", " }) { Some(__v) } else { None } })", "1")),
            ("is_none_or", 1, 1) => two(self, ("(match ", " { None => true, Some($P) => ", " })", "1")),
            ("is_ok_and", 1, 1) => two(self, ("(match ", " { Err(_) => false, Ok($P) => ", " })", "1")),
            ("is_err_and", 1, 1) => two(self, ("(match ", " { Ok(_) => false, Err($P) => ", " })", "1")),
            ("then", 1, 0) => two(self, ("(if ", " { Some(", ") } else { None })", "0")),
            _ => None,
        };
        let rec = self.cx.src.range(m.receiver.span());
        let all = self.cx.src.range(m.span());
        if let Some((c, pre, mid, post)) = plain {
            let body = self.cx.src.range(c.body.span());
            self.cx.insert(rec.start, pre);
            self.cx.replace(rec.end..body.start, mid);
            self.cx.replace(body.end..all.end, post);
            let k = format!("{}: .{method}(|{}| ..) inlined as a match", self.key, pat(self, c));
            self.cx.note(&k);
            self.visit_expr(&m.receiver);
            self.visit_expr(&c.body);
            return true;
        }
        if let Some(syn::Expr::Path(f)) = m.args.last() {
            let forms = match (&*method, m.args.len()) {
                ("map", 1) => Some(("(match crate::norm::Split::split(", ") { (Err(__e), __m) => __m.bad(__e), (Ok(__x), __m) => __m.good($F(__x)) })")),
                ("and_then", 1) => Some(("(match crate::norm::Split::split(", ") { (Err(__e), __m) => __m.bad(__e), (Ok(__x), __m) => __m.flat($F(__x)) })")),
                ("map_err", 1) => Some(("(match ", " { Ok(__v) => Ok(__v), Err(__x) => Err($F(__x)) })")),
                ("is_some_and", 1) => Some(("(match ", " { None => false, Some(__x) => $F(__x) })")),
                ("is_none_or", 1) => Some(("(match ", " { None => true, Some(__x) => $F(__x) })")),
                ("is_ok_and", 1) => Some(("(match ", " { Err(_) => false, Ok(__x) => $F(__x) })")),
                _ => None,
            };
            if let Some((pre, post)) = forms {
                let f = self.text(f.span());
                self.cx.insert(rec.start, pre.to_owned());
                self.cx.replace(rec.end..all.end, post.replace("$F", &f));
                let k = format!("{}: .{method}({f}) inlined as a match", self.key);
                self.cx.note(&k);
                self.visit_expr(&m.receiver);
                return true;
            }
        }
        if let ("map_or", 2, Some(c)) = (&*method, m.args.len(), closure(1)) {
            let d = self.cx.src.range(m.args[0].span());
            let body = self.cx.src.range(c.body.span());
            let p = pat(self, c);
            self.cx.insert(rec.start, format!("(match ({SPLIT}"));
            self.cx.replace(rec.end..d.start, "), ");
            self.cx.replace(d.end..body.start, format!(") {{ ((Ok({p}), _), _) => "));
            self.cx.replace(body.end..all.end, ", ((Err(_), _), __d) => __d })");
            let k = format!("{}: .map_or(.., |{p}| ..) inlined as a match", self.key);
            self.cx.note(&k);
            self.visit_expr(&m.receiver);
            self.visit_expr(&m.args[0]);
            self.visit_expr(&c.body);
            return true;
        }
        if let ("map_or_else", 2, Some(d), Some(c)) = (&*method, m.args.len(), closure(0), closure(1)) {
            let (db, body) = (self.cx.src.range(d.body.span()), self.cx.src.range(c.body.span()));
            let (q, p) = (pat(self, d), pat(self, c));
            let q = if q.is_empty() { "_".to_owned() } else { q };
            self.cx.insert(rec.start, format!("(match {SPLIT}"));
            self.cx.replace(rec.end..db.start, format!(") {{ (Err({q}), _) => "));
            self.cx.replace(db.end..body.start, format!(", (Ok({p}), _) => "));
            self.cx.replace(body.end..all.end, " })");
            let k = format!("{}: .map_or_else(|{q}| .., |{p}| ..) inlined as a match", self.key);
            self.cx.note(&k);
            self.visit_expr(&m.receiver);
            self.visit_expr(&d.body);
            self.visit_expr(&c.body);
            return true;
        }
        if matches!(&*method, "find" | "rfind" | "contains" | "starts_with" | "ends_with" | "trim_start_matches" | "trim_end_matches" | "split") {
            let was = std::mem::replace(&mut self.char_closure, true);
            visit::visit_expr_method_call(self, m);
            self.char_closure = was;
            return true;
        }
        false
    }
    /// write!(f, "a{x}b")  =>  the pieces written one after the other, up to the first error
    fn format(&mut self, tokens: proc_macro2::TokenStream, whole: Range<usize>, rec: Option<String>) {
        use syn::parse::Parser;
        let args = match syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(tokens) {
            Ok(a) => a.into_iter().collect::<Vec<_>>(),
            Err(e) => {
                self.cx.report.lost.push(format!("{}: format arguments: {e}", self.key));
                return;
            }
        };
        let text = |s: &Self, e: &syn::Expr| s.cx.src.text[s.cx.src.range(e.span())].to_owned();
        let mut args = args.iter();
        let rec = match rec {
            Some(r) => r,
            None => match args.next() {
                Some(e) => text(self, e),
                None => return,
            },
        };
        let fmt = match args.next() {
            Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
            _ => {
                self.cx.report.lost.push(format!("{}: no literal format string", self.key));
                return;
            }
        };
        let args: Vec<&syn::Expr> = args.collect();
        let mut pieces = vec![];
        let mut lit = String::new();
        let mut next = 0;
        let mut it = fmt.chars().peekable();
        while let Some(c) = it.next() {
            match c {
                '{' if it.peek() == Some(&'{') => {
                    it.next();
                    lit.push('{');
                }
                '}' if it.peek() == Some(&'}') => {
                    it.next();
                    lit.push('}');
                }
                '{' => {
                    let mut name = String::new();
                    loop {
                        match it.next() {
                            Some('}') => break,
                            Some(c) => name.push(c),
                            None => break,
                        }
                    }
                    if !lit.is_empty() {
                        pieces.push(format!("crate::fmtspec::w_str({rec}, {:?})", std::mem::take(&mut lit)));
                    }
                    let name = name.trim().to_owned();
                    let arg = if name.is_empty() {
                        next += 1;
                        args.get(next - 1).map(|e| text(self, e))
                    } else if let Ok(n) = name.parse::<usize>() {
                        args.get(n).map(|e| text(self, e))
                    } else if name.chars().all(|c| c.is_alphanumeric() || c == '_') {
                        let mut named = None;
                        for a in &args {
                            if let syn::Expr::Assign(x) = a {
                                if text(self, &x.left) == name {
                                    named = Some(text(self, &x.right));
                                }
                            }
                        }
                        Some(named.unwrap_or(name.clone()))
                    } else {
                        None
                    };
                    match arg {
                        Some(a) => pieces.push(format!("crate::fmtspec::w_arg({rec}, &({a}))")),
                        None => {
                            self.cx.report.lost.push(format!("{}: format specification {{{name}}}", self.key));
                            return;
                        }
                    }
                }
                c => lit.push(c),
            }
        }
        if !lit.is_empty() {
            pieces.push(format!("crate::fmtspec::w_str({rec}, {lit:?})"));
        }
        let mut out = String::from("Ok(())");
        for (i, p) in pieces.iter().rev().enumerate() {
            out = if i == 0 { p.clone() } else { format!("match {p} {{ Err(__e) => Err(__e), Ok(()) => {out} }}") };
        }
        self.cx.replace(whole, format!("({out})"));
        let k = format!("{}: formatting of {fmt:?} written piece by piece", self.key);
        self.cx.note(&k);
    }
    /// `h` replaces the parameters and return type: it repeats the parameter names.
    fn closure_header(&mut self, c: &syn::ExprClosure, h: &str) {
        let mv = c.capture.map_or(self.cx.src.range(c.or1_token.span()).start, |m| self.cx.src.range(m.span()).start);
        let body = self.cx.src.range(c.body.span());
        let mut h = h.to_owned();
        for (i, p) in c.inputs.iter().enumerate() {
            let p = match p {
                syn::Pat::Type(t) => &*t.pat,
                p => p,
            };
            let name = self.cx.src.text[self.cx.src.range(p.span())].to_owned();
            h = h.replace(&format!("${i}"), &name);
        }
        let is_block = matches!(&*c.body, syn::Expr::Block(_));
        let mv_s = if c.capture.is_some() { "move " } else { "" };
        self.cx.replace(mv..body.start, format!("{mv_s}{h} {}", if is_block { "" } else { "{ " }));
        if !is_block {
            self.cx.insert(body.end, " }");
        }
    }
}

fn finish_body(v: &mut BodyVisit<'_, '_>) {
    if let Some(a) = &v.ann {
        // where the source has not the loops and closures the contract knows, a proof may still go through
        // without their invariants; one that does not decides nothing
        let want_l = a.loops.keys().max().map_or(0, |m| m + 1);
        let want_c = a.closures.keys().max().map_or(0, |m| m + 1);
        if want_l != v.loops {
            v.cx.report.uncontracted.push((v.cx.file.clone(), format!("{}: {} loops in the source, {} under contract", v.key, v.loops, want_l)));
        }
        if want_c != v.closures {
            v.cx.report.uncontracted.push((v.cx.file.clone(), format!("{}: {} closures in the source, {} under contract", v.key, v.closures, want_c)));
        }
    }
}

/// Whether `let name = |..| ..` is in the block.
fn has_closure(b: &syn::Block, name: &str) -> bool {
    struct V<'a>(&'a str, bool);
    impl<'ast> Visit<'ast> for V<'_> {
        fn visit_local(&mut self, l: &'ast syn::Local) {
            if let (syn::Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                self.1 |= p.ident == self.0 && matches!(*init.expr, syn::Expr::Closure(_));
            }
            visit::visit_local(self, l);
        }
    }
    let mut v = V(name, false);
    v.visit_block(b);
    v.1
}

/// Bounds by `Display` are bounds by the trait that stands for it.
fn show_bounds(cx: &mut Ctx<'_>, key: &str, sig: &syn::Signature) {
    struct V(Vec<Span>);
    impl<'ast> Visit<'ast> for V {
        fn visit_trait_bound(&mut self, b: &'ast syn::TraitBound) {
            if b.path.segments.last().is_some_and(|s| s.ident == "Display") {
                self.0.push(b.path.span());
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_signature(sig);
    for s in v.0 {
        let r = cx.src.range(s);
        cx.replace(r, "crate::fmtspec::Disp");
        cx.note(&format!("{key}: a bound by Display written as a bound by Disp"));
    }
}

fn do_fn(cx: &mut Ctx<'_>, key: &str, sig: &syn::Signature, block: Option<&syn::Block>, attrs: &[syn::Attribute], _in_trait: bool) {
    let _ = is_local(attrs);
    let mut ann = cx.ann.fns.get(key).cloned();
    if let (Some(a), "contract") = (&mut ann, &*cx.mode) {
        // the body is not looked at
        a.begin.clear();
        a.end.clear();
        a.loops.clear();
        a.closures.clear();
        a.calls.clear();
        a.methods.clear();
    }
    let contract = cx.mode == "contract";
    let sig_range = cx.src.range(sig.span());
    let item_start = sig_range.start;
    if cx.unit.external.contains(key) {
        cx.insert(item_start, ""); // attribute goes before visibility; handled by the caller
    }
    if let Some(a) = &ann {
        cx.used.insert(key.to_owned());
        cx.report.contracts.push((cx.file.clone(), key.to_owned()));
        if let (Some(r), syn::ReturnType::Type(_, t)) = (&a.ret, &sig.output) {
            let tr = cx.src.range(t.span());
            match &a.ret_ty {
                Some(ty) => {
                    cx.replace(tr, format!("({r}: {ty})"));
                    cx.note(&format!("{key}: return type written as {ty}"));
                }
                None => {
                    cx.insert(tr.start, format!("({r}: "));
                    cx.insert(tr.end, ")");
                }
            }
        }
        for p in &a.add_params {
            let close = cx.src.range(sig.paren_token.span.close()).start;
            let sep = if sig.inputs.is_empty() || sig.inputs.trailing_punct() { "" } else { ", " };
            cx.insert(close, format!("{sep}{p}"));
            cx.note(&format!("{key}: ghost parameter {p}"));
        }
        for (pname, ty) in &a.params {
            for i in &sig.inputs {
                if let syn::FnArg::Typed(p) = i {
                    if cx.src.text[cx.src.range(p.pat.span())] == **pname {
                        let r = cx.src.range(p.ty.span());
                        cx.replace(r, ty.clone());
                    }
                }
            }
        }
    } else {
        cx.report.uncontracted.push((cx.file.clone(), key.to_owned()));
        show_bounds(cx, key, sig);
    }
    let a = ann.clone().unwrap_or_default();
    match block {
        None => {
            let semi = sig_range.end;
            cx.insert(semi, format!("\n{}\n", a.sig));
        }
        Some(b) => {
            let open = cx.src.range(b.brace_token.span.open());
            cx.insert(open.start, format!("\n{}\n", a.sig));
            let lits = if contract { String::new() } else { pattern_literals(cx, b) };
            cx.insert(open.end, format!("\n{}\n{lits}", a.begin));
            let close = cx.src.range(b.brace_token.span.close());
            if !a.end.is_empty() {
                // ghost code after the last statement: only for bodies that end in a statement
                if b.stmts.last().is_some_and(|s| matches!(s, syn::Stmt::Expr(_, None))) {
                    cx.report.lost.push(format!("{key}: the body ends in an expression"));
                } else {
                    cx.insert(close.start, a.end.clone());
                }
            }
            // a closure that is no longer there may be a function of the same name
            let lifts: BTreeMap<String, String> = a.lifts.iter().filter(|(n, _)| has_closure(b, n)).map(|(n, c)| (n.clone(), c.clone())).collect();
            let have = norm::heads(cx.src, b);
            let n = a.loops.keys().max().map_or(0, |m| m + 1);
            let mut want = expected_heads(&cx.file, key);
            want.resize(n, String::new());
            let places = norm::pair(&want, &have.iter().map(|h| h.1.clone()).collect::<Vec<_>>());
            let paired = have.iter().map(|h| h.0).zip(places).collect();
            let mut v = BodyVisit { cx, key: key.to_owned(), ann, loops: 0, paired, closures: 0, lifts: lifts.clone(), inherits: None, char_closure: false };
            visit::visit_block(&mut v, b);
            let _ = &v.inherits;
            if !contract {
                finish_body(&mut v);
            }
        }
    }
}

/// The string literals that a body takes as patterns: what they are, for the proof.
fn pattern_literals(cx: &Ctx<'_>, b: &syn::Block) -> String {
    struct P(BTreeSet<String>);
    impl<'ast> Visit<'ast> for P {
        fn visit_item(&mut self, _: &'ast syn::Item) {}
        fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
            if matches!(&*m.method.to_string(), "strip_prefix" | "strip_suffix" | "starts_with" | "ends_with") {
                if let Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) = m.args.first() {
                    self.0.insert(s.token().to_string());
                }
            }
            visit::visit_expr_method_call(self, m);
        }
    }
    let mut p = P(BTreeSet::new());
    if cx.unit.ghost.iter().any(|g| g == "std_assume") {
        p.visit_block(b);
    }
    if p.0.is_empty() {
        return String::new();
    }
    let all: String = p.0.iter().map(|l| format!("reveal_strlit({l}); ")).collect();
    format!("broadcast use crate::std_assume::group_pat;\nproof {{ {all}}}\n")
}

/// const X: T = E;  =>  exec const X: T ensures .. { E }
/// With a table contract, each element of the array literal E becomes a function of its own.
/// Array literals behind a reference in E, which live forever, become calls of static_slice.
fn do_const(cx: &mut Ctx<'_>, key: &str, const_tok: Span, ty: &syn::Type, eq: Span, expr: &syn::Expr, whole: Range<usize>) {
    struct Arrays<'c, 'a>(&'c mut Ctx<'a>);
    impl<'c, 'a, 'ast> Visit<'ast> for Arrays<'c, 'a> {
        fn visit_expr_reference(&mut self, r: &'ast syn::ExprReference) {
            if let syn::Expr::Array(a) = &*r.expr {
                let (all, arr) = (self.0.src.range(r.span()), self.0.src.range(a.span()));
                if a.elems.is_empty() {
                    self.0.replace(all, "crate::cowspec::empty_slice()");
                    return;
                }
                self.0.replace(all.start..arr.start, "crate::cowspec::static_slice(");
                self.0.insert(arr.end, ")");
            }
            visit::visit_expr_reference(self, r);
        }
    }
    if let syn::Type::Reference(r) = ty {
        // the elided lifetime of a constant is 'static
        if r.lifetime.is_none() {
            let at = cx.src.range(r.and_token.span()).end;
            cx.insert(at, "'static ");
        }
    }
    let Some(a) = cx.ann.items.get(key).cloned() else { return };
    cx.used.insert(key.to_owned());
    cx.report.contracts.push((cx.file.clone(), key.to_owned()));
    if a.sig.is_empty() && a.table.is_none() {
        return;
    }
    let ex = cx.src.range(expr.span());
    let at = cx.src.range(const_tok).start;
    cx.insert(at, "exec ");
    let eq = cx.src.range(eq);
    cx.replace(eq, format!("\n{}{{\n{}", a.sig, a.begin));
    // the semicolon
    cx.replace(ex.end..whole.end, " }");
    if let Some(name) = &a.table {
        let arr = match expr {
            syn::Expr::Reference(r) => match &*r.expr {
                syn::Expr::Array(a) => Some(a),
                _ => None,
            },
            syn::Expr::Array(a) => Some(a),
            _ => None,
        };
        let Some(arr) = arr else {
            cx.report.lost.push(format!("{key}: no array literal"));
            return;
        };
        let elem = match ty {
            syn::Type::Reference(r) => match &*r.elem {
                syn::Type::Slice(s) => &s.elem,
                _ => return,
            },
            _ => return,
        };
        let elem = cx.src.text[cx.src.range(elem.span())].to_owned();
        for (k, e) in arr.elems.iter().enumerate() {
            Arrays(cx).visit_expr(e);
            let r = cx.src.range(e.span());
            let n = k.to_string();
            let body = cx.render(r);
            cx.lifted.push((
                0..0,
                format!(
                    "pub const fn {name}_{k}() -> (r: {elem})\n{}\n{{\n{}\n{body}\n}}\n",
                    a.entry_sig.replace("$K", &n),
                    a.entry_begin.replace("$K", &n)
                ),
            ));
        }
        let n = arr.elems.len();
        // blocks of 16, joined pairwise: a contract for each
        let seg = |lo: usize, hi: usize| format!("{name}s_{lo}_{hi}");
        let sig = |lo: usize, hi: usize| {
            let f = a.block_sig.replace("$LO", &lo.to_string()).replace("$N", &(hi - lo).to_string());
            (f.replace("$S", "r@"), f.replace("$S", &format!("{}@", seg(lo, hi))))
        };
        fn build(
            lo: usize,
            hi: usize,
            f: &mut dyn FnMut(usize, usize, Option<usize>),
        ) {
            if hi - lo <= 16 {
                f(lo, hi, None);
            } else {
                let m = (lo + hi) / 2;
                build(lo, m, f);
                build(m, hi, f);
                f(lo, hi, Some(m));
            }
        }
        let mut text = String::new();
        build(0, n, &mut |lo, hi, mid| {
            let (inner, outer) = sig(lo, hi);
            let make = match mid {
                None => format!("crate::cowspec::static_slice([{}])", (lo..hi).map(|k| format!("{name}_{k}()")).collect::<Vec<_>>().join(", ")),
                Some(_) => "crate::cowspec::static_join(__a, __b)".to_owned(),
            };
            let begin = if let Some(m) = mid { format!(" let __a = {}; let __b = {};", seg(lo, m), seg(m, hi)) } else { (lo..hi).map(|k| a.block_begin.replace("$K", &k.to_string())).collect::<String>() };
            let cases = match mid {
                None => (0..hi - lo).map(|k| format!("if k == {k} {{}} ")).collect::<String>(),
                Some(m) => format!("if k < {0} {{ assert(r@[k] == __a@[k]); }} else {{ assert(r@[k] == __b@[k - {0}]); }}", m - lo),
            };
            let _ = writeln!(
                text,
                "pub exec const {}: &'static [{elem}]\n    ensures {outer}\n{{\n{}{begin}\n let r: &'static [{elem}] = {make};\n proof {{ assert({inner}) by {{ {} }} }}\n r\n}}",
                seg(lo, hi), a.entry_begin, a.block_proof.replace("$LO", &lo.to_string()).replace("$N", &(hi - lo).to_string()).replace("$S", "r@").replace("$CASES", &cases)
            );
        });
        cx.lifted.push((0..0, text));
        cx.edits.retain(|e| !(e.range.start >= ex.start && e.range.end <= ex.end && e.range.start < ex.end));
        cx.replace(ex, seg(0, n));
        cx.note(&format!("{key}: {n} elements of the array literal written as functions {name}_0.."));
    } else {
        Arrays(cx).visit_expr(expr);
    }
    cx.note(&format!("{key}: constant with a contract"));
}

fn ty_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => {
            let seg = p.path.segments.last().unwrap();
            let mut s = seg.ident.to_string();
            if s == "Option" {
                if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                    if let Some(syn::GenericArgument::Type(t)) = a.args.first() {
                        s = format!("Option<{}>", ty_name(t));
                    }
                }
            }
            s
        }
        syn::Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        _ => "?".into(),
    }
}

fn attr_is(attrs: &[syn::Attribute], path: &str, arg: &str) -> bool {
    attrs.iter().any(|a| match &a.meta {
        syn::Meta::List(l) => l.path.is_ident(path) && l.tokens.to_string().replace(' ', "").contains(arg),
        _ => false,
    })
}

fn attrs_of(i: &syn::Item) -> &[syn::Attribute] {
    match i {
        syn::Item::Const(x) => &x.attrs,
        syn::Item::Enum(x) => &x.attrs,
        syn::Item::Fn(x) => &x.attrs,
        syn::Item::Impl(x) => &x.attrs,
        syn::Item::Macro(x) => &x.attrs,
        syn::Item::Mod(x) => &x.attrs,
        syn::Item::Static(x) => &x.attrs,
        syn::Item::Struct(x) => &x.attrs,
        syn::Item::Trait(x) => &x.attrs,
        syn::Item::Type(x) => &x.attrs,
        syn::Item::Use(x) => &x.attrs,
        _ => &[],
    }
}

fn item_key(i: &syn::Item) -> String {
    match i {
        syn::Item::Const(x) => format!("const {}", x.ident),
        syn::Item::Static(x) => format!("static {}", x.ident),
        syn::Item::Enum(x) => format!("enum {}", x.ident),
        syn::Item::Fn(x) => format!("fn {}", x.sig.ident),
        syn::Item::Impl(x) => match &x.trait_ {
            Some((_, t, _)) => {
                let seg = t.segments.last().unwrap();
                format!("impl {} for {}", seg.ident, ty_name(&x.self_ty))
            }
            None => format!("impl {}", ty_name(&x.self_ty)),
        },
        syn::Item::Macro(x) => match &x.ident {
            Some(n) => format!("macro {n}"),
            None => format!("invoke {}", x.mac.path.segments.last().unwrap().ident),
        },
        syn::Item::Mod(x) => format!("mod {}", x.ident),
        syn::Item::Struct(x) => format!("struct {}", x.ident),
        syn::Item::Trait(x) => format!("trait {}", x.ident),
        syn::Item::Type(x) => format!("type {}", x.ident),
        syn::Item::Use(_) => "use".into(),
        _ => "?".into(),
    }
}

#[allow(clippy::too_many_arguments)]
fn do_text(
    text: String,
    file: &str,
    mode: &str,
    ann: &Ann,
    unit: &Unit,
    report: &mut Report,
    used: &mut BTreeSet<String>,
    macros: &mut BTreeMap<String, proc_macro2::TokenStream>,
) -> Result<String, String> {
    let parsed = syn::parse_file(&text).map_err(|e| format!("{file}: {e}"))?;
    let src = Src::new(text);
    let mut consts = BTreeSet::new();
    let mut cx = Ctx {
        src: &src,
        file: file.to_owned(),
        ann,
        unit,
        mode: mode.to_owned(),
        edits: vec![],
        hoisted: vec![],
        lifted: vec![],
        report,
        used,
    };
    let mut out = String::new();
    for item in &parsed.items {
        let key = item_key(item);
        let range = src.range(item.span());
        let attrs = attrs_of(item);
        let mode = if unit.verify.contains(&format!("{file} {key}")) { "verify" } else { mode };
        cx.mode = mode.to_owned();
        if attr_is(attrs, "cfg", "test") {
            cx.report.dropped.push((file.into(), format!("{key} (cfg(test))")));
            continue;
        }
        if attr_is(attrs, "cfg", "feature=\"targets\"") && !unit.features.contains("targets") {
            cx.report.dropped.push((file.into(), format!("{key} (feature targets is off in this unit)")));
            continue;
        }
        if unit.omit.contains(&format!("{file} {key}")) || unit.omit.contains(&key) {
            cx.report.dropped.push((file.into(), key.clone()));
            continue;
        }
        if let syn::Item::Use(_) = item {
            let t = &src.text[range.clone()];
            if unit.omit.iter().any(|o| o.strip_prefix("use ").is_some_and(|o| t.contains(o))) {
                cx.report.dropped.push((file.into(), t.replace('\n', " ")));
                continue;
            }
        }
        let keep = match mode {
            "mods" => matches!(item, syn::Item::Mod(_)),
            "types" => !matches!(item, syn::Item::Fn(_) | syn::Item::Impl(_) | syn::Item::Trait(_)),
            _ => true,
        };
        if !keep {
            cx.report.dropped.push((file.into(), key.clone()));
            continue;
        }
        let external = unit.external.contains(&key);
        if external {
            cx.report.dropped.push((file.into(), format!("{key} (kept as text, not verified)")));
        }
        let mut pre = String::new();
        if external {
            pre.push_str("#[verifier::external]\n");
        }
        match item {
            syn::Item::Mod(m) if m.content.is_none() => {
                let base = file.trim_end_matches(".rs");
                let sub = if base == "lib" { format!("{}.rs", m.ident) } else { format!("{base}/{}.rs", m.ident) };
                if !unit.files.iter().any(|(f, _)| *f == sub) {
                    cx.report.dropped.push((file.into(), format!("mod {}", m.ident)));
                    continue;
                }
                let _ = writeln!(out, "pub mod {};", m.ident);
                continue;
            }
            syn::Item::Macro(m) => {
                if m.ident.is_some() {
                    macros.insert(m.ident.as_ref().unwrap().to_string(), m.mac.tokens.clone());
                    continue;
                }
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                match macros.get(&name) {
                    None => return Err(format!("{file}: unknown macro {name}")),
                    Some(def) => {
                        let ex = mac::expand(def.clone(), m.mac.tokens.clone()).map_err(|e| format!("{file}: {name}!: {e}"))?;
                        cx.note(&format!("{name}!({}..) expanded", m.mac.tokens.to_string().chars().take(20).collect::<String>()));
                        let text = mac::to_text(ex);
                        let mut notes = vec![];
                        let text = if mode == "verify" { derive::expand(text, &ann.derives, &mut notes) } else { text };
                        cx.report.rewrites.extend(notes.into_iter().map(|n| (file.to_owned(), n)));
                        let sub = do_text(text, file, mode, ann, unit, cx.report, cx.used, macros)?;
                        out.push_str(&sub);
                        continue;
                    }
                }
            }
            syn::Item::Fn(f) if !external => {
                let k = f.sig.ident.to_string();
                decorate(&mut cx, &k, &mut pre);
                do_fn(&mut cx, &k, &f.sig, Some(&f.block), &f.attrs, false);
            }
            syn::Item::Const(c) if !external => {
                if mode == "contract" && ann.items.contains_key(&key) {
                    pre.push_str("#[verifier::external_body]\n");
                }
                if let Some(a) = ann.items.get(&key) {
                    pre.push_str(&a.attrs);
                }
                do_const(&mut cx, &key, c.const_token.span(), &c.ty, c.eq_token.span(), &c.expr, range.clone());
            }
            syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Const(_) | syn::Item::Static(_) => {
                if let Some(a) = ann.items.get(&key) {
                    pre.push_str(&a.attrs);
                    cx.used.insert(key.clone());
                    if let (true, syn::Item::Struct(s)) = (a.open, item) {
                        // private fields become visible
                        for f in &s.fields {
                            let at = match &f.ident {
                                Some(i) => src.range(i.span()).start,
                                None => src.range(f.ty.span()).start,
                            };
                            match &f.vis {
                                syn::Visibility::Inherited => cx.insert(at, "pub "),
                                syn::Visibility::Restricted(r) => cx.replace(src.range(r.span()), "pub"),
                                _ => {}
                            }
                        }
                        cx.note(&format!("{key}: private fields made visible"));
                    }
                }
            }
            syn::Item::Trait(t) if !external => {
                if let Some(a) = ann.items.get(&key) {
                    cx.used.insert(key.clone());
                    if !a.supertraits.is_empty() {
                        let at = src.range(t.ident.span()).end;
                        if t.supertraits.is_empty() {
                            cx.insert(at, format!(": {}", a.supertraits));
                        } else {
                            let at = src.range(t.supertraits.span()).end;
                            cx.insert(at, format!("+ {}", a.supertraits));
                        }
                    }
                    let open = src.range(t.brace_token.span.open());
                    cx.insert(open.end, format!("\n{}\n", a.items));
                }
                for ti in &t.items {
                    if let syn::TraitItem::Fn(f) = ti {
                        let k = format!("{}::{}", t.ident, f.sig.ident);
                        do_fn(&mut cx, &k, &f.sig, f.default.as_ref(), &f.attrs, true);
                    }
                }
            }
            // an impl of a trait that nothing here relies on: only its text is kept
            syn::Item::Impl(im)
                if !external
                    && mode == "contract"
                    && !ann.items.contains_key(&key)
                    && im.trait_.as_ref().is_some_and(|(_, t, _)| {
                        let (ty, t) = (ty_name(&im.self_ty), t.segments.last().unwrap().ident.to_string());
                        let fns = im.items.iter().filter_map(|i| if let syn::ImplItem::Fn(f) = i { Some(f.sig.ident.to_string()) } else { None }).collect::<Vec<_>>();
                        !fns.is_empty() && fns.iter().all(|f| !ann.fns.contains_key(&format!("<{ty} as {t}>::{f}")))
                    }) =>
            {
                pre.push_str("#[verifier::external]\n");
                cx.report.dropped.push((file.into(), format!("{key} (kept as text, no contract)")));
            }
            syn::Item::Impl(im) if !external => {
                let ty = ty_name(&im.self_ty);
                let mut flatten = false;
                if let Some(a) = ann.items.get(&key) {
                    cx.used.insert(key.clone());
                    pre.push_str(&a.attrs);
                    let open = src.range(im.brace_token.span.open());
                    cx.insert(open.end, format!("\n{}\n", a.items));
                    if a.flatten {
                        flatten = true;
                        // impl Trait for Ty { type X = ..; fn f } => impl Ty { pub fn f }
                        if let Some((_, path, for_)) = &im.trait_ {
                            let from = src.range(path.span()).start;
                            cx.replace(from..src.range(for_.span()).end, "");
                            cx.note(&format!("{key} flattened to an inherent impl"));
                        }
                    }
                }
                for ii in &im.items {
                    match ii {
                        syn::ImplItem::Fn(f) => {
                            let k = match &im.trait_ {
                                Some((_, t, _)) if !flatten => format!("<{ty} as {}>::{}", t.segments.last().unwrap().ident, f.sig.ident),
                                _ => format!("{ty}::{}", f.sig.ident),
                            };
                            let at = src.range(f.span()).start;
                            if unit.external.contains(&k) {
                                cx.insert(at, "#[verifier::external]\n");
                                cx.report.dropped.push((file.into(), format!("fn {k} (kept as text, not verified)")));
                                continue;
                            }
                            let mut pre = String::new();
                            decorate(&mut cx, &k, &mut pre);
                            if flatten {
                                pre.push_str("pub ");
                            }
                            // after the outer attributes
                            let at = match &f.vis {
                                syn::Visibility::Inherited => src.range(f.sig.span()).start,
                                v => src.range(v.span()).start,
                            };
                            cx.insert(at, pre);
                            do_fn(&mut cx, &k, &f.sig, Some(&f.block), &f.attrs, false);
                        }
                        syn::ImplItem::Const(c) => {
                            let k = format!("const {ty}::{}", c.ident);
                            let whole = src.range(c.span());
                            let at = match &c.vis {
                                syn::Visibility::Inherited => src.range(c.const_token.span()).start,
                                v => src.range(v.span()).start,
                            };
                            if ann.items.contains_key(&k) {
                                if mode == "contract" {
                                    cx.insert(at, "#[verifier::external_body]\n");
                                }
                                do_const(&mut cx, &k, c.const_token.span(), &c.ty, c.eq_token.span(), &c.expr, whole);
                            }
                        }
                        syn::ImplItem::Type(_) if flatten => {
                            let r = src.range(ii.span());
                            cx.replace(r, "");
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        let n_h = cx.hoisted.len();
        let n_l = cx.lifted.len();
        let text = cx.render(range.clone());
        let mut hs = String::new();
        for i in 0..n_h {
            let r = cx.hoisted[i].clone();
            let t = cx.render(r);
            // a constant that two functions define alike
            if t.trim_start().starts_with("const ") && !consts.insert(t.split_whitespace().collect::<String>()) {
                continue;
            }
            let _ = writeln!(hs, "{t}");
        }
        for i in 0..n_l {
            let (r, h) = cx.lifted[i].clone();
            let body = cx.render(r);
            let _ = writeln!(hs, "{h}{body}{}", if h.trim_end().ends_with('{') { "}" } else { "" });
        }
        cx.hoisted.clear();
        cx.lifted.clear();
        out.push_str(&hs);
        let _ = writeln!(out, "//@item {file} {key}\n{pre}{text}\n");
    }
    Ok(out)
}

fn decorate(cx: &mut Ctx<'_>, key: &str, pre: &mut String) {
    let a = cx.ann.fns.get(key);
    if cx.mode == "contract" {
        if a.is_some() {
            pre.push_str("#[verifier::external_body]\n");
        } else {
            pre.push_str("#[verifier::external]\n");
        }
    } else if let Some(a) = a {
        pre.push_str(&a.attrs);
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {}
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// specs/locals.txt: `file | function | the names it binds`, as the annotations know them.
fn expected(spec: &str, file: &str) -> Vec<(String, Vec<String>)> {
    // locals_optional.txt: functions with an optional contract, which the unchanged tree derives
    let t = ["locals.txt", "locals_optional.txt"].map(|n| std::fs::read_to_string(format!("{spec}/{n}")).unwrap_or_default()).join("\n");
    t.lines()
        .filter_map(|l| {
            let mut p = l.split(" | ");
            let (f, k, n) = (p.next()?, p.next()?, p.next().unwrap_or(""));
            (f == file).then(|| (k.to_owned(), n.split(' ').map(str::to_owned).collect()))
        })
        .collect()
}

/// specs/loops.txt: `file | function | the heads of its loops`, as the annotations know them.
static HEADS: std::sync::OnceLock<Vec<(String, String, Vec<String>)>> = std::sync::OnceLock::new();

fn expected_heads(file: &str, key: &str) -> Vec<String> {
    HEADS.get().and_then(|h| h.iter().find(|h| h.0 == file && h.1 == key)).map_or(vec![], |h| h.2.clone())
}

/// The names of the ghost functions that a file sees.
fn ghosts(spec: &str, unit: &Unit, annp: &str) -> BTreeSet<String> {
    let mut all: Vec<String> = unit.ghost.iter().map(|g| format!("{spec}/ghost/{g}.rs")).collect();
    all.push(annp.to_owned());
    let mut out = BTreeSet::new();
    for f in all {
        let t = std::fs::read_to_string(f).unwrap_or_default();
        for l in t.lines() {
            if l.contains("spec fn ") || l.contains("proof fn ") {
                let n: String = l.split("fn ").nth(1).unwrap_or("").chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                out.insert(n);
            }
        }
    }
    out
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 3 && args[1] == "--locals" {
        for f in ["expr/lexer.rs", "expr/parser.rs", "expr.rs", "targets.rs", "error.rs"] {
            let t = std::fs::read_to_string(format!("{}/{f}", args[2])).expect("source");
            for (k, n) in norm::locals(&t) {
                println!("{f} | {k} | {}", n.join(" "));
            }
        }
        return;
    }
    if args.len() == 3 && args[1] == "--loops" {
        for f in ["expr/lexer.rs", "expr/parser.rs", "expr.rs", "targets.rs", "error.rs"] {
            let t = std::fs::read_to_string(format!("{}/{f}", args[2])).expect("source");
            for (k, n) in norm::all_heads(&t) {
                if !n.is_empty() {
                    println!("{f} | {k} | {}", n.join(" | "));
                }
            }
        }
        return;
    }
    if args.len() != 5 {
        eprintln!("usage: extract SRC SPEC UNIT OUT");
        std::process::exit(2);
    }
    let (srcd, spec, unitf, out) = (&args[1], &args[2], &args[3], &args[4]);
    let unit = Unit::parse(&std::fs::read_to_string(unitf).expect("unit"));
    let heads = std::fs::read_to_string(format!("{spec}/loops.txt")).unwrap_or_default();
    let _ = HEADS.set(
        heads
            .lines()
            .map(|l| {
                let mut p = l.split(" | ").map(str::to_owned);
                (p.next().unwrap_or_default(), p.next().unwrap_or_default(), p.collect())
            })
            .collect(),
    );
    let mut report = Report::default();
    let mut lib = String::from("#![feature(pattern, allocator_api)]\n#![allow(unused)]\n#![allow(non_camel_case_types)]\n");
    let mut err = None;
    for g in &unit.ghost {
        let t = std::fs::read_to_string(format!("{spec}/ghost/{g}.rs")).unwrap_or_else(|e| panic!("ghost {g}: {e}"));
        std::fs::create_dir_all(out).unwrap();
        std::fs::write(format!("{out}/{g}.rs"), t).unwrap();
        let _ = writeln!(lib, "pub mod {g};");
    }
    for (f, mode) in &unit.files {
        let path = format!("{srcd}/{f}");
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                err = Some(format!("{path}: {e}"));
                continue;
            }
        };
        let annp = format!("{spec}/src/{}.ann", f.trim_end_matches(".rs"));
        let ann = Ann::parse(&std::fs::read_to_string(&annp).unwrap_or_default(), &unit.tags);
        let lifts: BTreeSet<String> = ann.fns.values().flat_map(|f| f.lifts.keys().cloned()).collect();
        let mut notes = vec![];
        let text = if mode != "mods" { norm::loops(text, &mut notes) } else { text };
        let text = if mode != "mods" { norm::apart(text, &ghosts(spec, &unit, &annp), &|k| ann.fns.contains_key(k) || lifts.contains(k) || unit.external.contains(k), &mut notes) } else { text };
        let text = norm::inline(text, &|k| ann.fns.contains_key(k) || lifts.contains(k) || unit.external.contains(k) || unit.omit.contains(k) || unit.omit.contains(&format!("{f} fn {k}")) || mode == "mods", &mut notes);
        let text = if mode != "mods" { norm::loops(text, &mut notes) } else { text };
        let text = if mode != "mods" { norm::rename(text, &expected(spec, f), &norm::words(&std::fs::read_to_string(&annp).unwrap_or_default()), &mut notes) } else { text };
        let text = if mode == "verify" { derive::expand(text, &ann.derives, &mut notes) } else { text };
        report.rewrites.extend(notes.into_iter().map(|n| (f.clone(), n)));
        let mut used = BTreeSet::new();
        let mut macros = BTreeMap::new();
        let seen: BTreeSet<String> = match syn::parse_file(&text) {
            Ok(p) => p.items.iter().map(item_key).collect(),
            Err(_) => BTreeSet::new(),
        };
        let body = match do_text(text, f, mode, &ann, &unit, &mut report, &mut used, &mut macros) {
            Ok(b) => b,
            Err(e) => {
                err = Some(e);
                continue;
            }
        };
        for v in &unit.verify {
            if let Some(k) = v.strip_prefix(&format!("{f} ")) {
                if !seen.contains(k) {
                    report.lost.push(format!("{f}: {k} is to be verified but not in the source"));
                }
            }
        }
        for k in ann.fns.keys().chain(ann.items.keys()) {
            if mode == "verify" && !used.contains(k) && !unit.external.contains(k) && !unit.omit.contains(k) && !unit.omit.contains(&format!("fn {k}")) && !unit.omit.contains(&format!("{f} {k}")) && !unit.omit.contains(&format!("{f} fn {k}")) && !ann.optional.contains(k) {
                report.lost.push(format!("{f}: {k} is under contract but not in the source"));
            }
        }
        let full = format!(
            "use vstd::prelude::*;\n{}\nverus! {{\n\n{}\n//@item {f} append\n{}\n\n}} // verus!\n",
            if mode == "mods" { "" } else { &ann.prelude },
            body,
            if mode == "mods" { "" } else { &ann.append },
        );
        let p = format!("{out}/{f}");
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
        std::fs::write(p, full).unwrap();
        if !f.contains('/') {
            let _ = writeln!(lib, "pub mod {};", f.trim_end_matches(".rs"));
        }
    }
    std::fs::create_dir_all(out).unwrap();
    std::fs::write(format!("{out}/lib.rs"), lib).unwrap();
    let pairs = |v: &Vec<(String, String)>| {
        v.iter().map(|(a, b)| format!("{{\"file\": {}, \"what\": {}}}", js(a), js(b))).collect::<Vec<_>>().join(",\n  ")
    };
    let rep = format!(
        "{{\n \"contracts\": [\n  {}],\n \"uncontracted\": [\n  {}],\n \"rewrites\": [\n  {}],\n \"dropped\": [\n  {}],\n \"lost\": [{}],\n \"error\": {}\n}}\n",
        pairs(&report.contracts),
        pairs(&report.uncontracted),
        pairs(&report.rewrites),
        pairs(&report.dropped),
        report.lost.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "),
        err.as_deref().map_or("null".into(), js)
    );
    std::fs::write(format!("{out}/report.json"), rep).unwrap();
    if let Some(e) = err {
        eprintln!("extract: {e}");
        std::process::exit(3);
    }
    for l in &report.lost {
        eprintln!("extract: lost anchor: {l}");
    }
    if !report.lost.is_empty() {
        std::process::exit(4);
    }
}
