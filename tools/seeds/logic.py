F = "src/expr/parser.rs"
X = "src/expr.rs"
P = """use cfg_expr::{Expression, Predicate, expr::Logic};
#[derive(Clone, Copy, PartialEq, Debug)]
struct N(i64);
impl Logic for N {
    fn top() -> Self { N(0) }
    fn bottom() -> Self { N(1) }
    fn and(self, o: Self) -> Self { N(self.0 + o.0) }
    fn or(self, o: Self) -> Self { N(self.0 * o.0) }
    fn not(self) -> Self { N(self.0 * 3 + 2) }
}
fn n(text: &str) -> i64 {
    let f = |p: &Predicate<'_>| match p {
        Predicate::Flag(f) => N(f.len() as i64),
        _ => N(10),
    };
    Expression::parse(text).unwrap().eval(f).0
}
"""
SEEDS = [
 dict(id="C18-double-not", property="C18", edits=[(F, "                            expr_queue.push(ExprNode::Fn(func));\n", """                            if matches!(func, Func::Not)
                                && matches!(expr_queue.last(), Some(ExprNode::Fn(Func::Not)))
                            {
                                expr_queue.pop();
                            } else {
                                expr_queue.push(ExprNode::Fn(func));
                            }
""")],
  demo=P + """fn main() {
    assert_eq!(n("not(a)"), 5);
    assert_eq!(n("not(not(a))"), 17);
}""", needs="a double negation evaluated in a logic whose not is no involution", breaks="not(not(x)) is parsed as x."),
 dict(id="C18-empty-any", property="C18", edits=[(X, "let mut result = T::bottom();", "let mut result = T::top().not();")],
  demo=P + """fn main() {
    assert_eq!(n("all(aa, any())"), 3);
    assert_eq!(n("any(aa, bbb)"), 6);
}""", needs="a logic in which the negation of top is not bottom", breaks="any() starts from not(top) instead of bottom."),
 dict(id="C18-de-morgan", property="C18", edits=[(X, "                        result = result.or(r);\n                    }\n\n                    result_stack.push(result);", "                        result = if *count > 2 {\n                            result.not().and(r.not()).not()\n                        } else {\n                            result.or(r)\n                        };\n                    }\n\n                    result_stack.push(result);")],
  demo=P + """fn main() {
    assert_eq!(n("any(aa, bbb)"), 6);
    assert_eq!(n("any(aa, bbb, aa)"), 12);
}""", needs="any() with at least three members in a logic without De Morgan's laws", breaks="any() of three members is computed by De Morgan's laws."),
 dict(id="C18-all-once-more", property="C18", edits=[(X, "let mut result = T::top();", "let mut result = if *count == 1 { T::top().or(T::bottom()).and(T::top().not().not()) } else { T::top() };")],
  demo=P + """fn main() {
    assert_eq!(n("all(aa, b)"), 3);
    assert_eq!(n("all(aa)"), 2);
}""", needs="all() with one member in a logic whose not is no involution", breaks="all(x) combines x with not(not(top)), which is not top."),
]
