F = "src/error.rs"
P = """use cfg_expr::{ParseError, error::Reason};
fn text(original: &str, span: std::ops::Range<usize>, reason: Reason) -> String {
    ParseError { original: original.to_owned(), span, reason }.to_string()
}
"""
SEEDS = [
 dict(id="C15-char-columns", property="C15", edits=[(F, "for _ in 0..self.span.start {", "for _ in self.original.char_indices().take_while(|(i, _)| *i < self.span.start) {")],
  demo=P + """fn main() {
    assert_eq!(text("a = 1", 4..5, Reason::InvalidCharacters), "a = 1\\n    ^ invalid character(s)");
    assert_eq!(text("é = 1", 5..6, Reason::InvalidCharacters), "é = 1\\n     ^ invalid character(s)");
}""", needs="a multi-byte character before the span", breaks="The marker is indented by characters and not by bytes."),
 dict(id="C15-last-separator", property="C15", edits=[(F, 'if i > 0 { ", " } else { "" }', 'if i > 0 && i < 8 { ", " } else { "" }')],
  demo=P + """fn main() {
    let l: &'static [&'static str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i"];
    assert!(text("", 0..0, Reason::Unexpected(l)).ends_with("`h`, `i` here"));
}""", needs="a list of nine or more expected terms", breaks="The ninth term is not separated from the eighth."),
 dict(id="C15-empty-span", property="C15", edits=[(F, "for _ in self.span.start..self.span.end {", "for _ in self.span.start..self.span.end.max(self.span.start + 1) {")],
  demo=P + """fn main() {
    assert_eq!(text("a =", 3..3, Reason::Empty), "a =\\n    empty expression");
}""", needs="an error with an empty span", breaks="An empty span is marked as if it had one byte."),
 dict(id="C15-unopened-quotes", property="C15", edits=[(F, "r @ (Reason::UnclosedParens | Reason::UnclosedQuotes) => {", "r @ (Reason::UnclosedParens | Reason::UnclosedQuotes)\n            | r @ Reason::UnopenedQuotes => {"), (F, "r @ (Reason::UnopenedParens | Reason::UnopenedQuotes) => {", "r @ Reason::UnopenedParens => {")],
  demo=P + """fn main() {
    assert_eq!(text("a", 0..1, Reason::UnopenedQuotes), "a\\n^ unopened quotes");
}""", needs="an UnopenedQuotes error, which the parser itself never makes", breaks="Unopened quotes get the marker of unclosed ones."),
]
