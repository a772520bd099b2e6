import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
p("C01","Exactly the cfg grammar is accepted",
 "Parsing a text succeeds exactly when it is, after removing one optional enclosing `cfg(` `)`, a single predicate with an optional trailing comma, where a predicate is `all(..)`/`any(..)` of a comma separated and possibly empty list, `not(..)` of exactly one predicate, or an option `key` / `key = \"value\"`; every list allows one trailing comma and whitespace is free between tokens. An option is rejected exactly when it is a bare option (`unix`, `windows`, `test`, `debug_assertions`, `proc_macro`) with a value, an option that needs a value (`feature`, `panic`, any `target_*`) without one, an unknown `target_*` name, an empty `target_feature`, or a `target_endian` / `target_has_atomic` / `target_pointer_width` whose value is not big|little / a u16 or `ptr` / a u8 (integers are decimal as Rust's FromStr reads them: an optional leading `+`, leading zeros allowed). Nothing else is accepted and nothing in the grammar is refused, at any nesting depth or list length.",
 ["inputs"],"every string",
 "The tests try a few dozen short texts; acceptance is a statement about all strings, in particular deep nesting, long lists, odd token orders and non-ASCII text (functions nested 256 deep inside of one list, `a,,b` and `all(), any()` were all wrong).",
 ["src/expr/parser.rs","src/expr/lexer.rs"],[("the token loop of Expression::parse with its operator stack","src/expr/parser.rs"),("option validation","src/expr/parser.rs: parse_predicate"),("tokens","src/expr/lexer.rs")],["Expression::parse"])
p("C02","Evaluation gives the truth value the text denotes",
 "Evaluating a parsed expression with a valuation of its options gives the value the text denotes: `all` is the conjunction of its members (true if it has none), `any` the disjunction (false if it has none), `not` the negation, nested as written. This holds for two-valued evaluation and for three-valued evaluation with unknown (Kleene logic), for every valuation, every nesting depth and every list length, and evaluation never panics on a parsed expression.",
 ["inputs"],"every accepted text and every valuation of its predicates, in bool and in Option<bool>",
 "The tests evaluate a few dozen hand-written expressions; the postfix code and the operand counts have to be right for every tree.",
 ["src/expr/parser.rs","src/expr.rs"],[("postfix code with operand counts","src/expr/parser.rs"),("stack evaluation","src/expr.rs: Expression::eval"),("connectives","src/expr.rs: impl Logic")],["Expression::eval"])
p("C03","Every option is reported, and each is consulted exactly once",
 "The predicates an expression lists are exactly the options written in its text, each occurrence once, with nothing invented, merged or lost. Evaluation asks the caller's function for exactly these occurrences, in the same order, each exactly once, also when the result is already determined.",
 ["inputs","histories"],"every accepted text, every caller function",
 "Tests look at the predicates of two expressions and never count the calls; whether an option goes missing depends on the shape of the tree.",
 ["src/expr.rs","src/expr/parser.rs"],[("predicates()","src/expr.rs"),("eval's traversal","src/expr.rs"),("emission of predicates to the code","src/expr/parser.rs")],["Expression::predicates","Expression::eval"])
p("C04","Unknown is sound: a definite answer survives every completion",
 "If evaluation with some options unknown gives a definite true or false, then evaluation with any assignment of true or false to the unknown options gives the same answer; with no option unknown, three-valued and two-valued evaluation agree. The connectives are Kleene's: they are commutative, associative, have their neutral elements, satisfy De Morgan's laws, and double negation is the identity.",
 ["inputs"],"every accepted text, every partial valuation and every completion of it",
 "Tests check a handful of expressions; soundness quantifies over all completions of all partial valuations.",
 ["src/expr.rs"],[("impl Logic for Option<bool>","src/expr.rs"),("impl Logic for bool","src/expr.rs"),("Expression::eval","src/expr.rs")],["Expression::eval","Logic"])
p("C05","Options are classified by name and values come out verbatim",
 "Each option of an accepted text is reported as the kind its name says: `unix`/`windows` as the target family of that name, `test`, `debug_assertions`, `proc_macro`, `feature`, `target_feature`, `panic`, and each `target_*` name as its own target predicate; every other name is a plain flag or key/value pair. The reported name and value are exactly the characters written (values without their quotes, nothing trimmed, escaped or case-folded), and numeric and enumerated values are the numbers and variants written.",
 ["inputs"],"every option name and every value, including empty and non-ASCII values, at any position of an expression",
 "The tests use a fixed set of ASCII names and values; the values are stored as byte ranges of the text and reconstructed later, which has to work at every offset.",
 ["src/expr/parser.rs","src/expr.rs"],[("parse_predicate","src/expr/parser.rs"),("byte ranges turned back into strings","src/expr.rs: InnerPredicate::to_pred")],["Expression::predicates","Expression::eval"])
p("C06","Parsing never panics and every error points into the text",
 "Parsing returns for every string: it never panics, overflows or loops. When it fails, the error carries exactly the text that was parsed (without the enclosing `cfg()`), and its span is a valid range of that text that starts and ends on character boundaries.",
 ["inputs"],"every string",
 "Tests look at about twenty error texts, all ASCII; slicing, offsets and counters have to be right for every string (a span that split a non-ASCII character and a counter that overflowed at 256 nested functions were both real).",
 ["src/expr/parser.rs","src/expr/lexer.rs","src/error.rs"],[("token spans","src/expr/lexer.rs"),("error construction","src/expr/parser.rs")],["Expression::parse"])
p("C07","Tokens tile the text",
 "Lexing a text (minus the optional enclosing `cfg(` `)`) yields its tokens from left to right: each span is a valid range, spans do not overlap and increase, everything between them is whitespace, and a token's text is exactly the characters of its span (a quoted value without its quotes). Each token is the longest one possible, a word is `[A-Za-z_][A-Za-z0-9_]*`, only `all`, `any` and `not` are functions, and lexing ends at the end of the text or at the first unclosed quote or character that can start no token, which the error points at.",
 ["inputs"],"every string, including every Unicode whitespace and non-ASCII text inside and outside of quotes",
 "The lexer test checks one expression; offsets are byte positions maintained by hand, and the statement is about all strings.",
 ["src/expr/lexer.rs"],[("Lexer::next","src/expr/lexer.rs"),("Lexer::new","src/expr/lexer.rs"),("Token::len","src/expr/lexer.rs")],["Lexer"])
p("C08","A target matches a predicate exactly when its field says so",
 "A target description matches a target predicate exactly when the named field has that value: architecture, endianness, pointer width and panic strategy by equality, families and atomics by membership. An absent ABI or environment matches exactly the empty string, an absent OS exactly `none`, and an absent vendor exactly `unknown`; a present value matches exactly itself. No predicate looks at any other field.",
 ["inputs"],"every target description (built-in or made by the caller) and every predicate",
 "Tests check some predicates of some built-in targets; callers build their own descriptions, with any strings and any combination of absent fields.",
 ["src/expr.rs","src/targets.rs"],[("impl TargetMatcher for TargetInfo","src/expr.rs"),("membership","src/targets.rs: Families::contains, HasAtomics::contains")],["TargetPredicate::matches"])
p("C09","Looking up a built-in target is exact",
 "Looking up a triple returns the built-in entry with exactly that triple, and nothing if there is none: every entry of the built-in list is found by its own triple, and no other string finds any entry.",
 ["inputs"],"every string",
 "Tests look up a few triples; a binary search is right only if the whole list is ordered as it compares, for every key.",
 ["src/targets.rs","src/targets/builtins.rs"],[("get_builtin_target_by_triple","src/targets.rs"),("order of ALL_BUILTINS","src/targets/builtins.rs")],["get_builtin_target_by_triple"])
p("C10","The built-in table states rustc's facts",
 "Every built-in entry states the facts rustc 1.86 has for that triple: operating system, ABI, architecture, environment, vendor, families, pointer width, endianness, atomics and panic strategy, under the conventions for absent fields that matching uses. The entries are those of rustc's target list, in strictly increasing order of the triple, and the family and atomic lists of each entry are in increasing order without duplicates. `rustc_version()` names that release.",
 ["inputs","configurations"],"all built-in targets and all of their fields",
 "The tests check the order of the triples and a few fields of a few targets; a wrong field in one of some 3000 is not noticed.",
 ["src/targets/builtins.rs"],[("ALL_BUILTINS","src/targets/builtins.rs")],["ALL_BUILTINS"])
p("C11","Atomics and endianness read back from their text",
 "The text of an atomic width reads back as the same value, for every width and for pointers; `ptr` and the decimal 16-bit integers, as Rust's own FromStr reads them (an optional leading `+`, leading zeros allowed), are the only texts that are accepted, and the error of a rejected text carries that text. `big` and `little` are the only texts accepted as an endianness, each as itself.",
 ["inputs"],"every string, and every atomic width",
 "No test parses more than a few of these; the statement is about all strings and all 65536 widths.",
 ["src/targets.rs"],[("impl FromStr for HasAtomic","src/targets.rs"),("impl Display for HasAtomic","src/targets.rs"),("target_enum!(Endian)","src/targets.rs")],["HasAtomic::from_str","Endian::from_str"])
p("C12","Family and atomic sets are the values given, in one order",
 "A family set or atomic set built from any values contains exactly these values: membership holds for each of them and for nothing else, and the set lists them in increasing order, each as often as given. The order of construction does not matter: the same values in another order make an equal set, and other values (or another number of one) an unequal one.",
 ["inputs"],"every sequence of families or atomics, with repetitions",
 "One test builds one two-element set in two orders.",
 ["src/targets.rs"],[("Families::new, HasAtomics::new sort","src/targets.rs"),("contains","src/targets.rs")],["Families","HasAtomics"])
p("C13","An expression is identified by its text",
 "A parsed expression keeps exactly the text it was parsed from, without the enclosing `cfg()`; two expressions are equal exactly when these texts are equal, and a clone is equal to its original, lists the same predicates and evaluates alike. Parsing with or without one enclosing `cfg()` gives the same result (only one level is removed, and only if the text starts with `cfg(` and ends with `)`).",
 ["inputs"],"every accepted text and every pair of accepted texts",
 "Tests compare three pairs of texts.",
 ["src/expr.rs","src/expr/parser.rs","src/expr/lexer.rs"],[("impl PartialEq for Expression","src/expr.rs"),("Expression::original","src/expr.rs"),("stripping of cfg( )","src/expr/lexer.rs: Lexer::new")],["Expression::eq","Expression::original"])
p("C14","A target-lexicon triple answers consistently",
 "With the `targets` feature, a target-lexicon triple never matches an ABI, a panic strategy or an atomic width; it matches an endianness exactly when target-lexicon says so for its architecture, and exactly one pointer width if its size is known (32 for gnux32 and gnu_ilp32 environments, target-lexicon's answer for all others). It never belongs to both the `unix` and the `windows` family, belongs to no family but `unix`, `windows` and `wasm`, and matching never panics.",
 ["inputs"],"every triple target-lexicon can represent and every target predicate",
 "Tests check the triples of the built-in targets; callers pass any triple.",
 ["src/expr.rs"],[("impl TargetMatcher for target_lexicon::Triple","src/expr.rs")],["TargetPredicate::matches"])
p("C15","An error renders the text with a marker under its span",
 "The rendering of a parse error is the parsed text, a newline, one space for each byte before the span, then `- ` and the reason for unclosed parens or quotes, `^ ` and the reason for unopened ones, and otherwise one `^` for each byte of the span, a space and the reason. Every reason has its own fixed wording; a list of expected terms is rendered in order, each in backquotes, separated by commas, with the singular form for one term. `description` is the wording without particulars: `unexpected term` for every unexpected term, `not() takes 1 predicate` for every `not`, and the same wording for all others. The error of a rejected atomic width prints as `expected integer or \"ptr\", found ` and the rejected text.",
 ["inputs"],"every parse error, whatever its text, span and reason",
 "Tests compare the fields of errors and never render one.",
 ["src/error.rs"],[("impl Display for ParseError","src/error.rs"),("impl Error for ParseError","src/error.rs"),("impl Display for HasAtomicParseError","src/error.rs"),("impl Display for Reason","src/error.rs")],["ParseError::fmt"])
p("C16","The generated table is what the generator prints",
 "Running the update tool for rustc 1.86 prints the built-in table that is checked in, byte for byte.",
 ["configurations"],"the rustc release the table names",
 "No test runs the generator: it needs that rustc and network access.",
 ["update/src/main.rs","src/targets/builtins.rs"],[("table generator","update/src/main.rs")])
p("C17","A rejected text is reported with its first fault and what was expected",
 "The error of a rejected text names the first fault met from left to right, and its span marks it. (1) A token that cannot follow the one before it is `Unexpected`, spans that token, and lists what can follow: at the start `<key> all any not`; after a function word `(`; after `(` `<key> ) all any not`; after `)` `) ,`; after `,` `) <key>`; after `=` `\"`; after a key `= , )`; after a value `, )`. A `)` where it could follow but no function is open is `UnopenedParens` at it. (2) At the `)` of a `not` list that does not have exactly one member the error is `InvalidNot` with the number of members, from the word `not` through that `)`; this comes before a fault of its last option. (3) An option is judged when the `,` or `)` behind it or the end of the text is reached: a bare option with a value is `Unexpected` with an empty list at the value; `feature`, `panic` and any other `target_*` without a value are `Unexpected` at the key, listing `= \"<feature_name>\"`, `= \"<panic_strategy>\"`, `= \"<target_cfg_value>\"`; an unknown `target_*` is `Unexpected` at the key, listing target_arch, target_feature, target_os, target_family, target_env, target_endian, target_has_atomic, target_pointer_width, target_vendor; an empty `target_feature` is `Unexpected` at the value, listing `<feature>`; a bad endianness or pointer width is `InvalidInteger`, a bad atomic width `InvalidHasAtomic`, at the value (values are spanned without their quotes). (4) A quote that is never closed is `UnclosedQuotes` from it to the end of the text; a character no token starts with is `Unexpected` at that character, listing `<key> all any not`. (5) At the end of the text, in this order: a dangling `=` is `Unexpected` at the end of the text, listing `\"<value>\"`; an open function is `UnclosedParens` from the innermost open `(` to the end, or, if its `(` is missing, `Unexpected` at its word, listing `(`; then a fault of the last option; no predicate at all is `Empty`, more than one at the root is `MultipleRootPredicates`, both spanning the whole text.",
 ["inputs"],"every rejected text",
 "Tests sample some thirty rejected texts; which fault is the first and where it stands depends on everything read before it, and positions are bytes.",
 ["src/expr/parser.rs","src/expr/lexer.rs"],[("token_err!, the close-parenthesis branch and the checks after the loop","src/expr/parser.rs: Expression::parse"),("errors of options","src/expr/parser.rs: parse_predicate"),("unclosed quotes and unknown characters","src/expr/lexer.rs: Lexer::next")],["ParseError::reason","ParseError::span"])
p("C18","Evaluation computes in whatever logic the caller defines",
 "`eval` is generic in the logic. For every type whose `and` and `or` are associative and commutative with `top()` and `bottom()` as neutral elements (and with any `not`), the result is the value the text denotes in that logic: an option is what the caller's function answers for it, `all` is the `and` of its members (`top()` if it has none), `any` the `or` of its members (`bottom()` if it has none), `not` is `not` of its member, nested as written, every occurrence counted. No law of boolean logic beyond these is assumed: not idempotence, absorption, distributivity, De Morgan or double negation.",
 ["inputs"],"every accepted text, every such logic, every valuation of the options",
 "Tests evaluate in bool and Option<bool> only; a shortcut that is right there (skipping a duplicate, dropping a double negation, stopping early) is wrong for a caller's logic.",
 ["src/expr.rs","src/expr/parser.rs"],[("Expression::eval, generic over Logic","src/expr.rs"),("trait Logic","src/expr.rs"),("postfix code with operand counts","src/expr/parser.rs")],["Expression::eval","Logic"])
p("C19","Names and sets read back and print as they are",
 "A name of a target description (triple, ABI, architecture, vendor, OS, family, environment, panic strategy) holds exactly the text it is made from, owned or static, whatever the text is; `as_str`, `AsRef<str>` and `Display` give exactly that text back, and two names of a kind are equal exactly when their texts are, and ordered as their texts are. Each predefined constant (`Os::linux`, `Arch::x86_64`, ...) holds the text it is named for, with `-` for `_` in `vec_extabi`. A family set and an atomic set print as `{`, their members in the order of the set separated by `, `, and `}`; an atomic width prints as its decimal digits, pointers as `ptr`.",
 ["inputs"],"every text, every set of families or atomics, all predefined constants",
 "No test prints a name or a set; the statement is about all texts and sets of every size.",
 ["src/targets.rs","src/targets/builtins.rs"],[("field_impls!","src/targets.rs"),("impl Display for Families, HasAtomics, HasAtomic","src/targets.rs"),("predefined constants","src/targets/builtins.rs")],["Display","as_str"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['id']
