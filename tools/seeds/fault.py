F = "src/expr/parser.rs"
L = "src/expr/lexer.rs"
P = """use cfg_expr::{Expression, error::Reason};
fn fault(text: &str) -> (Reason, std::ops::Range<usize>) {
    let e = Expression::parse(text).unwrap_err();
    (e.reason, e.span)
}
"""
SEEDS = [
 dict(id="C17-outermost-paren", property="C17", edits=[(F, "        if let Some(top) = func_stack.pop() {\n            if top.parens_index != 0 {", "        if !func_stack.is_empty() {\n            let top = func_stack.swap_remove(0);\n            if top.parens_index != 0 {")],
  demo=P + """fn main() {
    assert_eq!(fault("all(a, any(b"), (Reason::UnclosedParens, 10..12));
    assert_eq!(fault("all(b"), (Reason::UnclosedParens, 3..5));
}""", needs="at least two functions that are not closed", breaks="The outermost open parenthesis is reported and not the innermost."),
 dict(id="C17-not-direct-only", property="C17", edits=[(F, "reason: Reason::InvalidNot(num_predicates),", "reason: Reason::InvalidNot(num_predicates - top.nest_level.min(1)),")],
  demo=P + """fn main() {
    assert_eq!(fault("not(a, b)"), (Reason::InvalidNot(2), 0..9));
    assert_eq!(fault("not(a, all(b))"), (Reason::InvalidNot(2), 0..14));
}""", needs="a not list with several members of which one is a function", breaks="The reported number of members leaves out a function."),
 dict(id="C17-roots-first", property="C17", edits=[(F, """                root_predicate_count += 1;
                expr_queue.push(ExprNode::Predicate(parse_predicate(key, val)?));
            }
""", """                root_predicate_count += 1;
                match parse_predicate(key, val) {
                    Ok(pred) => expr_queue.push(ExprNode::Predicate(pred)),
                    Err(err) if root_predicate_count == 1 => return Err(err),
                    Err(_) => {}
                }
            }
""")],
  demo=P + """fn main() {
    assert_eq!(fault("a, feature"), (Reason::Unexpected(&["= \\"<feature_name>\\""]), 3..10));
    assert_eq!(fault("a, b"), (Reason::MultipleRootPredicates, 0..4));
}""", needs="several root predicates of which the last is no valid option", breaks="MultipleRootPredicates is reported before the fault of the last option."),
 dict(id="C17-quote-trimmed", property="C17", edits=[(L, "span: self.offset..self.original.len(),\n                            reason: Reason::UnclosedQuotes,", "span: self.offset..self.original.trim_end().len(),\n                            reason: Reason::UnclosedQuotes,")],
  demo=P + """fn main() {
    assert_eq!(fault("a = \\"b"), (Reason::UnclosedQuotes, 4..6));
    assert_eq!(fault("a = \\"b  "), (Reason::UnclosedQuotes, 4..8));
}""", needs="whitespace at the end of a text with an unclosed quote", breaks="The span of an unclosed quote stops before trailing whitespace."),
 dict(id="C17-width-at-key", property="C17", edits=[(F, """                            which: Which::PointerWidth(val.parse().map_err(|_err| ParseError {
                                original: original.to_owned(),
                                span: vspan,""", """                            which: Which::PointerWidth(val.parse().map_err(|_err| ParseError {
                                original: original.to_owned(),
                                span: if val.is_empty() { span } else { vspan },""")],
  demo=P + """fn main() {
    assert_eq!(fault("target_pointer_width = \\"x\\""), (Reason::InvalidInteger, 24..25));
    assert_eq!(fault("target_pointer_width = \\"\\""), (Reason::InvalidInteger, 24..24));
}""", needs="an empty pointer width", breaks="An empty pointer width is reported at its key and not at its value."),
 dict(id="C17-stale-last", property="C17", edits=[(F, """                            last_token = Some(Token::CloseParen);
                            continue 'outer;""", """                            if func_stack.is_empty() || last_token != Some(Token::CloseParen) {
                                last_token = Some(Token::CloseParen);
                            }
                            continue 'outer;"""), (F, "Some(Token::CloseParen) => &[\")\", \",\"],", "Some(Token::CloseParen) if func_stack.is_empty() => &[\",\"],\n                    Some(Token::CloseParen) => &[\")\", \",\"],")],
  demo=P + """fn main() {
    assert_eq!(fault("all(any() b)"), (Reason::Unexpected(&[")", ","]), 10..11));
    assert_eq!(fault("all() b"), (Reason::Unexpected(&[")", ","]), 6..7));
}""", needs="a token behind a function at the root", breaks="The terms listed behind a closing parenthesis depend on whether a function is open."),
]
