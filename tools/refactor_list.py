# ---- parser
r("p-helper", (P, "impl Expression {\n    /// Given", '''fn unexpected(original: &str, span: std::ops::Range<usize>, terms: &'static [&'static str]) -> ParseError {
    ParseError {
        original: original.to_owned(),
        span,
        reason: Reason::Unexpected(terms),
    }
}

impl Expression {
    /// Given'''), (P, '''            return Err(ParseError {
                original: original.to_owned(),
                span: original.len()..original.len(),
                reason: Reason::Unexpected(&["\\"<value>\\""]),
            });''', '''            return Err(unexpected(original, original.len()..original.len(), &["\\"<value>\\""]));'''),
  (P, '''                            return Err(ParseError {
                                original: original.to_owned(),
                                span,
                                reason: Reason::Unexpected(&["= \\"<feature_name>\\""]),
                            });''', '''                            return Err(unexpected(original, span, &["= \\"<feature_name>\\""]));'''))
r("p-usize-from", (P, '''                            // In this context, the boolean to int conversion is confusing.
                            #[allow(clippy::bool_to_int_with_if)]
                            let num_predicates = top.predicates.len()
                                + if key.is_some() { 1 } else { 0 }
                                + top.nest_level;''', '''                            let num_predicates =
                                top.predicates.len() + top.nest_level + usize::from(key.is_some());'''))
r("p-rename-roots", (P, "let mut root_predicate_count = 0usize;", "let mut num_roots: usize = 0;"),
  (P, "                            if func_stack.is_empty() {\n                                root_predicate_count += 1;", "                            if func_stack.is_empty() {\n                                num_roots += 1;"),
  (P, "                            (Some(pred), None) => {\n                                root_predicate_count += 1;", "                            (Some(pred), None) => {\n                                num_roots += 1;"),
  (P, "            if let Some(key) = key {\n                root_predicate_count += 1;", "            if let Some(key) = key {\n                num_roots += 1;"),
  (P, "} else if root_predicate_count > 1 {", "} else if num_roots > 1 {"))
r("p-extend", (P, '''                            for pred in top.predicates {
                                expr_queue.push(ExprNode::Predicate(pred));
                            }''', '''                            expr_queue.extend(top.predicates.into_iter().map(ExprNode::Predicate));'''))
r("p-if-let", (P, '''                        match (inner_pred, func_stack.last_mut()) {
                            (Some(pred), Some(func)) => {
                                func.predicates.push(pred);
                            }
                            (Some(pred), None) => {
                                root_predicate_count += 1;

                                expr_queue.push(ExprNode::Predicate(pred));
                            }
                            _ => {}
                        }''', '''                        if let Some(pred) = inner_pred {
                            if let Some(func) = func_stack.last_mut() {
                                func.predicates.push(pred);
                            } else {
                                root_predicate_count += 1;
                                expr_queue.push(ExprNode::Predicate(pred));
                            }
                        }'''))
r("p-arm-order", (P, '''                Token::Equals => {
                    if !matches!(last_token, Some(Token::Key(_))) {
                        token_err!(lt.span)
                    }
                }
''', ""), (P, '''                Token::OpenParen => {
                    if matches!(last_token, Some(Token::All''', '''                Token::Equals => {
                    if !matches!(last_token, Some(Token::Key(_))) {
                        token_err!(lt.span)
                    }
                }
                Token::OpenParen => {
                    if matches!(last_token, Some(Token::All'''))
r("p-while-let", (P, "        'outer: for lt in lexer {\n", "        let mut tokens = lexer;\n        'outer: while let Some(lt) = tokens.next() {\n"))
r("p-strip-prefix", (P, '''                    let tp = match &target_key[7..] {''', '''                    let field = target_key.strip_prefix("target_").unwrap_or(target_key);
                    let tp = match field {'''))
r("p-no-else", (P, '''                    if matches!(last_token, Some(Token::Equals)) {
                        // We only record the span for keys and values
                        // so that the expression doesn't need a lifetime
                        // but in the value case we need to strip off
                        // the quotes so that the proper raw string is
                        // provided to callers when evaluating the expression
                        pred_val = Some((v, lt.span.start + 1..lt.span.end - 1));
                    } else {
                        token_err!(lt.span)
                    }''', '''                    if !matches!(last_token, Some(Token::Equals)) {
                        token_err!(lt.span)
                    }
                    // the span without its quotes
                    let inner = lt.span.start + 1..lt.span.end - 1;
                    pred_val = Some((v, inner));'''))
r("p-early-return", (P, '''            if top.parens_index != 0 {
                Err(ParseError {
                    original: original.to_owned(),
                    span: top.parens_index..original.len(),
                    reason: Reason::UnclosedParens,
                })
            } else {
                Err(ParseError {
                    original: original.to_owned(),
                    span: top.span,
                    reason: Reason::Unexpected(&["("]),
                })
            }''', '''            let (span, reason) = if top.parens_index == 0 {
                (top.span, Reason::Unexpected(&["("]))
            } else {
                (top.parens_index..original.len(), Reason::UnclosedParens)
            };
            Err(ParseError {
                original: original.to_owned(),
                span,
                reason,
            })'''))
r("p-match-pop", (P, '''                            if let Some(key) = key {
                                let inner_pred = parse_predicate(key, val)?;
                                expr_queue.push(ExprNode::Predicate(inner_pred));
                            }

                            expr_queue.push(ExprNode::Fn(func));''', '''                            match key {
                                Some(key) => {
                                    expr_queue.push(ExprNode::Predicate(parse_predicate(key, val)?));
                                }
                                None => {}
                            }

                            expr_queue.push(ExprNode::Fn(func));'''))
r("p-bool", (P, "            } else if root_predicate_count > 1 {", "            } else if root_predicate_count >= 2 {"),
  (P, "            if expr_queue.is_empty() {\n", "            let nothing = expr_queue.len() == 0;\n            if nothing {\n"))
r("p-noop", (P, "        let original = lexer.inner;\n", "        let original = lexer.inner;\n        let _ = original.len();\n"))
r("p-flatten", (P, '''                    if let Some(top) = func_stack.pop() {
                            let key''', '''                    if let Some(top) = func_stack.pop() {
                            let key''')) if False else None
r("p-expected-fn", (P, '''                let expected: &[&str] = match last_token {
                    None => &["<key>", "all", "any", "not"],
                    Some(Token::All | Token::Any | Token::Not) => &["("],
                    Some(Token::CloseParen) => &[")", ","],
                    Some(Token::Comma) => &[")", "<key>"],
                    Some(Token::Equals) => &["\\""],
                    Some(Token::Key(_)) => &["=", ",", ")"],
                    Some(Token::Value(_)) => &[",", ")"],
                    Some(Token::OpenParen) => &["<key>", ")", "all", "any", "not"],
                };
''', "                let expected = expected_after(last_token.as_ref());\n"),
  (P, "                    reason: Reason::Unexpected(&expected),", "                    reason: Reason::Unexpected(expected),"),
  (P, "impl Expression {\n    /// Given", '''fn expected_after(last: Option<&Token<'_>>) -> &'static [&'static str] {
    match last {
        None => &["<key>", "all", "any", "not"],
        Some(Token::All | Token::Any | Token::Not) => &["("],
        Some(Token::CloseParen) => &[")", ","],
        Some(Token::Comma) => &[")", "<key>"],
        Some(Token::Equals) => &["\\""],
        Some(Token::Key(_)) => &["=", ",", ")"],
        Some(Token::Value(_)) => &[",", ")"],
        Some(Token::OpenParen) => &["<key>", ")", "all", "any", "not"],
    }
}

impl Expression {
    /// Given'''))
r("p-swap-takes", (P, '''                        let key = pred_key.take();
                        let val = pred_val.take();

                        let inner_pred''', '''                        let val = pred_val.take();
                        let key = pred_key.take();

                        let inner_pred'''))
r("p-no-transpose", (P, "let inner_pred = key.map(|key| parse_predicate(key, val)).transpose()?;", '''let inner_pred = match key {
                            Some(key) => Some(parse_predicate(key, val)?),
                            None => None,
                        };'''))
r("p-or-else", (P, "                    if let Some((_, vspan)) = val {", "                    if let Some((_text, vspan)) = val {"),
  (P, "                _other => InnerPredicate::Other {", "                _ => InnerPredicate::Other {"))
r("p-value-map", (P, "value: val.map(|(_, span)| span),", '''value: match val {
                        Some((_, vspan)) => Some(vspan),
                        None => None,
                    },'''))
# ---- lexer
r("l-unwrap-or", (L, '''        let non_whitespace_index = match self.inner.find(|c: char| !c.is_whitespace()) {
            Some(idx) => idx,
            None => self.inner.len(),
        };
''', '''        let non_whitespace_index = self
            .inner
            .find(|c: char| !c.is_whitespace())
            .unwrap_or(self.inner.len());
'''))
r("l-unwrap-or-else", (L, '''        let non_whitespace_index = match self.inner.find(|c: char| !c.is_whitespace()) {
            Some(idx) => idx,
            None => self.inner.len(),
        };
''', '''        let non_whitespace_index = self
            .inner
            .find(|c: char| !c.is_whitespace())
            .unwrap_or_else(|| self.inner.len());
'''))
r("l-trim-start", (L, '''        let non_whitespace_index = match self.inner.find(|c: char| !c.is_whitespace()) {
            Some(idx) => idx,
            None => self.inner.len(),
        };

        self.inner = &self.inner[non_whitespace_index..];
        self.offset += non_whitespace_index;
''', '''        let rest = self.inner.trim_start();
        self.offset += self.inner.len() - rest.len();
        self.inner = rest;
'''))
r("l-alphabetic", (L, "ch == '_' || ch.is_ascii_lowercase() || ch.is_ascii_uppercase()", "ch.is_ascii_alphabetic() || ch == '_'"),
  (L, "is_ident_start(ch) || ch.is_ascii_digit()", "ch == '_' || ch.is_ascii_alphanumeric()"))
r("l-matches", (L, "ch == '_' || ch.is_ascii_lowercase() || ch.is_ascii_uppercase()", "matches!(ch, '_' | 'a'..='z' | 'A'..='Z')"),
  (L, "is_ident_start(ch) || ch.is_ascii_digit()", "matches!(ch, '0'..='9') || is_ident_start(ch)"))
r("l-module-fns", (L, '''        #[inline]
        fn is_ident_start(ch: char) -> bool {
            ch == '_' || ch.is_ascii_lowercase() || ch.is_ascii_uppercase()
        }

        #[inline]
        fn is_ident_rest(ch: char) -> bool {
            is_ident_start(ch) || ch.is_ascii_digit()
        }

''', ""), (L, "impl<'a> Iterator for Lexer<'a> {", '''#[inline]
fn is_ident_start(ch: char) -> bool {
    ch == '_' || ch.is_ascii_lowercase() || ch.is_ascii_uppercase()
}

#[inline]
fn is_ident_rest(ch: char) -> bool {
    is_ident_start(ch) || ch.is_ascii_digit()
}

impl<'a> Iterator for Lexer<'a> {'''))
r("l-strip", (L, '''        let text = if text.starts_with("cfg(") && text.ends_with(')') {
            &text[4..text.len() - 1]
        } else {
            text
        };
''', '''        let text = text
            .strip_prefix("cfg(")
            .and_then(|t| t.strip_suffix(')'))
            .unwrap_or(text);
'''))
r("l-strip-if-let", (L, '''        let text = if text.starts_with("cfg(") && text.ends_with(')') {
            &text[4..text.len() - 1]
        } else {
            text
        };
''', '''        let text = if let Some(inner) = text.strip_prefix("cfg(").and_then(|t| t.strip_suffix(')')) {
            inner
        } else {
            text
        };
'''))
r("l-new-names", (L, '''        let text = if text.starts_with("cfg(") && text.ends_with(')') {
            &text[4..text.len() - 1]
        } else {
            text
        };

        Self {
            inner: text,
            original: text,
            offset: 0,
        }''', '''        let wrapped = text.ends_with(')') && text.starts_with("cfg(");
        let stripped = if wrapped { &text["cfg(".len()..text.len() - 1] } else { text };

        Self {
            offset: 0,
            original: stripped,
            inner: stripped,
        }'''))
r("l-flat-match", (L, '''            Some(c) => {
                if c == '"' {
                    match self.inner[1..].find('"') {
                        Some(ind) => Some(Ok(Token::Value(&self.inner[1..=ind]))),
                        None => Some(Err(ParseError {
                            original: self.original.to_owned(),
                            span: self.offset..self.original.len(),
                            reason: Reason::UnclosedQuotes,
                        })),
                    }
                } else if is_ident_start(c) {''', '''            Some('"') => match self.inner[1..].find('"') {
                Some(ind) => Some(Ok(Token::Value(&self.inner[1..ind + 1]))),
                None => Some(Err(ParseError {
                    original: self.original.to_owned(),
                    span: self.offset..self.original.len(),
                    reason: Reason::UnclosedQuotes,
                })),
            },
            Some(c) => {
                if is_ident_start(c) {'''))
r("l-no-map", (L, '''        match self.inner.chars().next() {
            None => None,''', '''        let lexed = match self.inner.chars().next() {
            None => None,'''), (L, '''        .map(|tok| {
            tok.map(|tok| {
                let len = tok.len();

                let start = self.offset;
                self.inner = &self.inner[len..];
                self.offset += len;

                LexerToken {
                    token: tok,
                    span: start..self.offset,
                }
            })
        })''', '''        ;

        match lexed {
            None => None,
            Some(Err(err)) => Some(Err(err)),
            Some(Ok(token)) => {
                let start = self.offset;
                let len = token.len();
                self.offset += len;
                self.inner = &self.inner[len..];

                Some(Ok(LexerToken {
                    token,
                    span: start..self.offset,
                }))
            }
        }'''))
r("l-len", (L, '''            Token::Key(s) => s.len(),
            Token::Value(s) => s.len() + 2,
            Token::Equals | Token::OpenParen | Token::CloseParen | Token::Comma => 1,
            Token::All | Token::Any | Token::Not => 3,''', '''            Token::All | Token::Any | Token::Not => 3,
            Token::Value(s) => 2 + s.len(),
            Token::Key(s) => s.len(),
            _ => 1,'''))
r("l-helper", (L, '''                    match substr {
                        "all" => Some(Ok(Token::All)),
                        "any" => Some(Ok(Token::Any)),
                        "not" => Some(Ok(Token::Not)),
                        other => Some(Ok(Token::Key(other))),
                    }''', "                    Some(Ok(word(substr)))"), (L, "impl<'a> Iterator for Lexer<'a> {", '''fn word(text: &str) -> Token<'_> {
    match text {
        "all" => Token::All,
        "any" => Token::Any,
        "not" => Token::Not,
        other => Token::Key(other),
    }
}

impl<'a> Iterator for Lexer<'a> {'''))
r("l-substr-end", (L, '''                    let substr = match self.inner[1..].find(|c: char| !is_ident_rest(c)) {
                        Some(ind) => &self.inner[..=ind],
                        None => self.inner,
                    };''', '''                    let end = match self.inner.find(|c: char| !is_ident_rest(c)) {
                        Some(ind) => ind,
                        None => self.inner.len(),
                    };
                    let substr = &self.inner[..end];'''))
# ---- expr
r("x-while", (X, '''                    let mut result = T::top();

                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.and(r);
                    }''', '''                    let mut result = T::top();
                    let mut left = *count;

                    while left > 0 {
                        let r = result_stack.pop().unwrap();
                        result = result.and(r);
                        left -= 1;
                    }'''))
r("x-if-let", (X, '''        self.expr.iter().filter_map(move |item| match item {
            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }
            ExprNode::Fn(_) => None,
        })''', '''        self.expr.iter().filter_map(move |item| {
            if let ExprNode::Predicate(pred) = item {
                Some(pred.to_pred(&self.original))
            } else {
                None
            }
        })'''))
r("x-map-or", (X, '''            Abi(abi) => match &self.abi {
                Some(a) => abi == a,
                None => abi.0.is_empty(),
            },''', "            Abi(abi) => self.abi.as_ref().map_or(abi.0.is_empty(), |a| abi == a),"))
r("x-if-let-os", (X, '''            Os(os) => match &self.os {
                Some(self_os) => os == self_os,
                // os = "none" means it should be matched against None. Note that this is different
                // from "env" above.
                None => os.as_str() == "none",
            },''', '''            Os(os) => {
                if let Some(self_os) = &self.os {
                    self_os == os
                } else {
                    // "none" stands for no operating system
                    os.0 == "none"
                }
            }'''))
r("x-order", (X, '''            Arch(a) => a == &self.arch,
            Endian(end) => *end == self.endian,
''', '''            Endian(end) => self.endian == *end,
            Arch(a) => &self.arch == a,
'''))
r("x-text-closure", (X, '''        match self {
            IP::Target(it) => match &it.which {
                Which::Abi => Target(TargetPredicate::Abi(targ::Abi::new(
                    s[it.span.clone().unwrap()].to_owned(),
                ))),''', '''        fn value(it: &InnerTarget, s: &str) -> String {
            s[it.span.clone().unwrap()].to_owned()
        }

        match self {
            IP::Target(it) => match &it.which {
                Which::Abi => Target(TargetPredicate::Abi(targ::Abi::new(value(it, s)))),'''))
r("x-bool-ops", (X, "        self && other", "        if self { other } else { false }"), (X, "        self || other", "        self | other"))
r("x-kleene", (X, '''            // If either is false, the expression is false.
            (Some(false), _) | (_, Some(false)) => Some(false),
            // If both are true, the expression is true.
            (Some(true), Some(true)) => Some(true),
            // One or both are unknown -- the result is unknown.
            _ => None,''', '''            (Some(true), Some(true)) => Some(true),
            (Some(false), _) => Some(false),
            (_, Some(false)) => Some(false),
            (None, _) | (_, None) => None,'''), (X, "        self.map(|v| !v)", '''        match self {
            Some(v) => Some(!v),
            None => None,
        }'''))
r("x-eq", (X, "        self.original.eq(&other.original)", "        self.original == other.original"))
r("x-eq-str", (X, "        self.original.eq(&other.original)", "        self.original() == other.original()"))
r("x-expect", (X, '''                    let r = result_stack.pop().unwrap();
                    result_stack.push(r.not());''', '''                    let operand = result_stack.pop().expect("not() has an operand");
                    result_stack.push(operand.not());'''))
r("x-let-else", (X, "        result_stack.pop().unwrap()\n    }", '''        let Some(result) = result_stack.pop() else {
            unreachable!()
        };
        result
    }'''))
r("x-split-match", (X, '''                ExprNode::Fn(Func::Not) => {
                    // not() with a configuration predicate.
                    // It is true if its predicate is false
                    // and false if its predicate is true.
                    let r = result_stack.pop().unwrap();
                    result_stack.push(r.not());
                }
''', ""), (X, "                ExprNode::Fn(Func::All(count)) => {\n", '''                ExprNode::Fn(Func::Not) => {
                    let r = result_stack.pop().unwrap();
                    result_stack.push(r.not());
                }
                ExprNode::Fn(Func::All(count)) => {
'''))
r("x-for-ref", (X, "        for node in self.expr.iter() {", "        for node in &self.expr {"))
r("x-fold", (X, '''                    let mut result = T::bottom();

                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                    }

                    result_stack.push(result);''', '''                    let result = (0..*count).fold(T::bottom(), |acc, _| acc.or(result_stack.pop().unwrap()));

                    result_stack.push(result);'''))
r("x-lexicon-arms", (X, '''            HasAtomic(_) => {
                // atomic support depends on both the architecture and the OS. Assume false for
                // this.
                false
            }
''', ""), (X, '''            Abi(_) => {
                // `target_abi` is unstable. Assume false for this.
                false
            }''', '''            // unstable, or dependent on more than the triple: assume false
            Abi(_) | HasAtomic(_) => false,'''))
r("x-lexicon-width", (X, '''                if !matches!(
                    self.environment,
                    Environment::Gnux32 | Environment::GnuIlp32
                ) {
                    *pw == match self.pointer_width() {
                        Ok(pw) => pw.bits(),
                        Err(_) => return false,
                    }
                } else {
                    *pw == 32
                }''', '''                match self.environment {
                    Environment::Gnux32 | Environment::GnuIlp32 => *pw == 32,
                    _ => match self.pointer_width() {
                        Ok(width) => width.bits() == *pw,
                        Err(()) => false,
                    },
                }'''))
r("x-lexicon-width2", (X, '''                if !matches!(
                    self.environment,
                    Environment::Gnux32 | Environment::GnuIlp32
                ) {
                    *pw == match self.pointer_width() {
                        Ok(pw) => pw.bits(),
                        Err(_) => return false,
                    }
                } else {
                    *pw == 32
                }''', "                self.pointer_width().is_ok_and(|width| width.bits() == *pw)"))
r("x-lexicon-endian", (X, '''                Ok(endian) => matches!(
                    (end, endian),
                    (crate::targets::Endian::little, Endianness::Little)
                        | (crate::targets::Endian::big, Endianness::Big)
                ),

                Err(_) => false,''', '''                Ok(Endianness::Little) => *end == crate::targets::Endian::little,
                Ok(Endianness::Big) => *end == crate::targets::Endian::big,
                Err(_) => false,'''))
# ---- targets
r("t-ok-map", (T, '''        .map(|i| &ALL_BUILTINS[i])
        .ok()''', '''        .ok()
        .map(|i| &ALL_BUILTINS[i])'''))
r("t-match", (T, '''    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()''', '''    match ALL_BUILTINS.binary_search_by(|info| info.triple.as_str().cmp(triple)) {
        Ok(index) => Some(&ALL_BUILTINS[index]),
        Err(_) => None,
    }'''))
r("t-by-key", (T, '''        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))''', '''        .binary_search_by_key(&triple, |ti| ti.triple.as_str())'''))
r("t-get", (T, '''    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()''', '''    let index = ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .ok()?;
    ALL_BUILTINS.get(index)'''))
r("t-ptr-first", (T, '''        if let Ok(size) = s.parse::<u16>() {
            Ok(Self::IntegerSize(size))
        } else if s == "ptr" {
            Ok(HasAtomic::Pointer)
        } else {
            Err(HasAtomicParseError {
                input: s.to_owned(),
            })
        }''', '''        if s == "ptr" {
            return Ok(Self::Pointer);
        }
        match s.parse() {
            Ok(size) => Ok(Self::IntegerSize(size)),
            Err(_) => Err(HasAtomicParseError {
                input: s.to_owned(),
            }),
        }'''))
r("t-map-err", (T, '''        if let Ok(size) = s.parse::<u16>() {
            Ok(Self::IntegerSize(size))
        } else if s == "ptr" {
            Ok(HasAtomic::Pointer)
        } else {
            Err(HasAtomicParseError {
                input: s.to_owned(),
            })
        }''', '''        match s {
            "ptr" => Ok(Self::Pointer),
            _ => s
                .parse::<u16>()
                .map(Self::IntegerSize)
                .map_err(|_err| HasAtomicParseError {
                    input: s.to_owned(),
                }),
        }'''))
r("t-sort", (T, '''        let mut fams: Vec<_> = val.into_iter().collect();
        fams.sort_unstable();
        Self(Cow::Owned(fams))''', '''        let mut families = val.into_iter().collect::<Vec<Family>>();
        families.sort();
        Self(families.into())'''))
r("t-sort2", (T, '''        let mut fams: Vec<_> = val.into_iter().collect();
        fams.sort_unstable();
        Self(Cow::Owned(fams))''', '''        let mut families: Vec<Family> = val.into_iter().collect();
        families.sort();
        Self(Cow::Owned(families))'''))
r("t-any", (T, "        self.0.contains(val)", "        self.0.iter().any(|fam| fam == val)"))
r("t-loop", (T, "        self.0.contains(&val)", '''        for has in self.0.iter() {
            if *has == val {
                return true;
            }
        }
        false'''))
r("t-as-ref", (T, '''            pub fn as_str(&self) -> &str {
                &*self.0
            }''', '''            pub fn as_str(&self) -> &str {
                self.0.as_ref()
            }'''))
r("t-as-ref2", (T, '''            fn as_ref(&self) -> &str {
                &*self.0
            }''', '''            fn as_ref(&self) -> &str {
                self.as_str()
            }'''))
r("t-display", (T, '''            Self::IntegerSize(size) => write!(f, "{size}"),
            Self::Pointer => write!(f, "ptr"),''', '''            Self::Pointer => f.write_str("ptr"),
            Self::IntegerSize(bits) => write!(f, "{}", bits),'''))
r("t-display2", (T, '''            Self::IntegerSize(size) => write!(f, "{size}"),
            Self::Pointer => write!(f, "ptr"),''', '''            Self::Pointer => f.write_str("ptr"),
            Self::IntegerSize(bits) => bits.fmt(f),'''))
# ---- error
r("e-repeat", (E, '''        for _ in 0..self.span.start {
            f.write_str(" ")?;
        }''', '''        f.write_str(&" ".repeat(self.span.start))?;'''))
r("e-write", (E, '''                f.write_fmt(format_args!("- {r}"))''', '''                write!(f, "- {r}")'''), (E, '''                f.write_fmt(format_args!("^ {r}"))''', '''                write!(f, "^ {}", r)'''))
r("e-first", (E, '''        f.write_str(&self.original)?;
        f.write_str("\\n")?;
''', '''        writeln!(f, "{}", self.original)?;
'''))
r("e-first2", (E, '''        f.write_str(&self.original)?;
        f.write_str("\\n")?;
''', '''        write!(f, "{}\\n", self.original)?;
'''))
r("e-while", (E, '''        for _ in 0..self.span.start {
            f.write_str(" ")?;
        }''', '''        let mut column = 0;
        while column < self.span.start {
            f.write_str(" ")?;
            column += 1;
        }'''))
r("e-match-len", (E, '''                if expected.len() > 1 {
                    f.write_str("expected one of ")?;

                    for (i, exp) in expected.iter().enumerate() {
                        f.write_fmt(format_args!("{}`{exp}`", if i > 0 { ", " } else { "" }))?;
                    }
                    f.write_str(" here")
                } else if !expected.is_empty() {
                    f.write_fmt(format_args!("expected a `{}` here", expected[0]))
                } else {
                    f.write_str("the term was not expected here")
                }''', '''                match expected {
                    [] => f.write_str("the term was not expected here"),
                    [term] => f.write_fmt(format_args!("expected a `{term}` here")),
                    _ => {
                        f.write_str("expected one of ")?;
                        for (i, exp) in expected.iter().enumerate() {
                            f.write_fmt(format_args!("{}`{exp}`", if i > 0 { ", " } else { "" }))?;
                        }
                        f.write_str(" here")
                    }
                }'''))
r("e-sep", (E, '''                    for (i, exp) in expected.iter().enumerate() {
                        f.write_fmt(format_args!("{}`{exp}`", if i > 0 { ", " } else { "" }))?;
                    }''', '''                    for (i, exp) in expected.iter().enumerate() {
                        if i > 0 {
                            f.write_str(", ")?;
                        }
                        write!(f, "`{exp}`")?;
                    }'''))
r("e-helper", (E, "impl fmt::Display for ParseError {", '''fn pad(f: &mut fmt::Formatter<'_>, count: usize, text: &str) -> fmt::Result {
    for _ in 0..count {
        f.write_str(text)?;
    }
    Ok(())
}

impl fmt::Display for ParseError {'''), (E, '''        for _ in 0..self.span.start {
            f.write_str(" ")?;
        }''', '''        pad(f, self.span.start, " ")?;'''))
r("e-arms", (E, '''            InvalidCharacters => f.write_str("invalid character(s)"),
            UnclosedParens => f.write_str("unclosed parens"),
            UnopenedParens => f.write_str("unopened parens"),
            UnclosedQuotes''', '''            UnopenedParens => f.write_str("unopened parens"),
            UnclosedParens => f.write_str("unclosed parens"),
            InvalidCharacters => write!(f, "invalid character(s)"),
            UnclosedQuotes'''))
# ---- builtins
r("b-fields", (B, '''        triple: Triple::new_const("aarch64-apple-darwin"),
        os: Some(Os::macos),
        abi: None,
        arch: Arch::aarch64,
        env: None,''', '''        triple: Triple::new_const("aarch64-apple-darwin"),
        abi: None,
        os: Some(Os::macos),
        env: None,
        arch: Arch::new_const("aarch64"),'''))

# ---- names and helpers
r("n-parser", w(P, "func_stack", "open_fns"), w(P, "expr_queue", "nodes"), w(P, "last_token", "previous"), w(P, "root_predicate_count", "roots"), w(P, "num_predicates", "members"))
r("n-parser2", w(P, "pred_key", "pending_key"), w(P, "pred_val", "pending_val"), w(P, "lt", "spanned"))
r("n-lexer", w(L, "non_whitespace_index", "skip"), w(L, "substr", "word"), (L, "let start = self.offset;", "let begin = self.offset;"), (L, "span: start..self.offset,", "span: begin..self.offset,"))
r("n-eval", w(X, "result_stack", "stack"), w(X, "count", "members"), w(X, "result", "value_so_far"))
r("n-targets", (T, "pub fn new(val: impl IntoIterator<Item = Family>) -> Self {\n        let mut fams: Vec<_> = val.into_iter().collect();\n        fams.sort_unstable();\n        Self(Cow::Owned(fams))", "pub fn new(families: impl IntoIterator<Item = Family>) -> Self {\n        let mut sorted: Vec<_> = families.into_iter().collect();\n        sorted.sort_unstable();\n        Self(Cow::Owned(sorted))"))
r("h-lexer-skip", (L, '''        let non_whitespace_index = match self.inner.find(|c: char| !c.is_whitespace()) {
            Some(idx) => idx,
            None => self.inner.len(),
        };

        self.inner = &self.inner[non_whitespace_index..];
        self.offset += non_whitespace_index;
''', '''        self.skip_whitespace();
'''), (L, '''        Self {
            inner: text,
            original: text,
            offset: 0,
        }
    }
''', '''        Self {
            inner: text,
            original: text,
            offset: 0,
        }
    }

    /// Moves to the next character that is not whitespace
    fn skip_whitespace(&mut self) {
        let skipped = match self.inner.find(|c: char| !c.is_whitespace()) {
            Some(idx) => idx,
            None => self.inner.len(),
        };
        self.inner = &self.inner[skipped..];
        self.offset += skipped;
    }
'''))
r("h-lexer-word", (L, '''                    let substr = match self.inner[1..].find(|c: char| !is_ident_rest(c)) {
                        Some(ind) => &self.inner[..=ind],
                        None => self.inner,
                    };
''', '''                    let substr = leading_word(self.inner);
'''), (L, '''        match self.inner.chars().next() {
            None => None,''', '''        fn leading_word(text: &str) -> &str {
            match text[1..].find(|c: char| !is_ident_rest(c)) {
                Some(ind) => &text[..=ind],
                None => text,
            }
        }

        match self.inner.chars().next() {
            None => None,'''))
r("h-lexer-advance", (L, '''            tok.map(|tok| {
                let len = tok.len();

                let start = self.offset;
                self.inner = &self.inner[len..];
                self.offset += len;

                LexerToken {
                    token: tok,
                    span: start..self.offset,
                }
            })''', '''            tok.map(|tok| self.advance(tok))'''), (L, '''impl<'a> Iterator for Lexer<'a> {''', '''impl<'a> Lexer<'a> {
    fn advance(&mut self, token: Token<'a>) -> LexerToken<'a> {
        let len = token.len();
        let start = self.offset;
        self.inner = &self.inner[len..];
        self.offset += len;
        LexerToken {
            token,
            span: start..self.offset,
        }
    }
}

impl<'a> Iterator for Lexer<'a> {'''))
r("h-parser-closure", (P, '''        let mut pred_key: Option<(&str, _)> = None;''', '''        let fail = |span: std::ops::Range<usize>, reason: Reason| ParseError {
            original: original.to_owned(),
            span,
            reason,
        };

        let mut pred_key: Option<(&str, _)> = None;'''), (P, '''                        return Err(ParseError {
                            original: original.to_owned(),
                            span: lt.span,
                            reason: Reason::UnopenedParens,
                        });''', '''                        return Err(fail(lt.span, Reason::UnopenedParens));'''), (P, '''                                        return Err(ParseError {
                                            original: original.to_owned(),
                                            span: top.span.start..lt.span.end,
                                            reason: Reason::InvalidNot(num_predicates),
                                        });''', '''                                        return Err(fail(top.span.start..lt.span.end, Reason::InvalidNot(num_predicates)));'''))
r("h-parser-func", (P, '''                        let new_fn = match lt.token {
                            // the 0 is a dummy value -- it will be substituted for the real
                            // number of predicates in the `CloseParen` branch below.
                            Token::All => Func::All(0),
                            Token::Any => Func::Any(0),
                            Token::Not => Func::Not,
                            _ => unreachable!(),
                        };
''', '''                        let new_fn = func_of(&lt.token);
'''), (P, '''impl Expression {
    /// Given''', '''fn func_of(token: &Token<'_>) -> Func {
    match token {
        Token::All => Func::All(0),
        Token::Any => Func::Any(0),
        Token::Not => Func::Not,
        _ => unreachable!(),
    }
}

impl Expression {
    /// Given'''))
r("h-parser-expects", (P, '''                    if matches!(last_token, None | Some(Token::OpenParen | Token::Comma)) {
                        pred_key = Some((k, lt.span.clone()));''', '''                    if starts_predicate(&last_token) {
                        pred_key = Some((k, lt.span.clone()));'''), (P, '''impl Expression {
    /// Given''', '''fn starts_predicate(last: &Option<Token<'_>>) -> bool {
    matches!(last, None | Some(Token::OpenParen | Token::Comma))
}

impl Expression {
    /// Given'''))
r("h-eval-op", (X, '''                    let r = result_stack.pop().unwrap();
                    result_stack.push(r.not());''', '''                    negate_top(&mut result_stack);'''), (X, '''impl PartialEq for Expression {''', '''fn negate_top<T: Logic>(stack: &mut SmallVec<[T; 8]>) {
    let r = stack.pop().unwrap();
    stack.push(r.not());
}

impl PartialEq for Expression {'''))
r("h-os", (X, '''                None => os.as_str() == "none",
            },''', '''                None => is_none_os(os),
            },'''), (X, '''impl PartialEq for Expression {''', '''#[inline]
fn is_none_os(os: &targ::Os) -> bool {
    os.as_str() == "none"
}

impl PartialEq for Expression {'''))
r("h-error", (E, "impl fmt::Display for ParseError {", '''fn caret(f: &mut fmt::Formatter<'_>, reason: &Reason) -> fmt::Result {
    f.write_fmt(format_args!("^ {reason}"))
}

impl fmt::Display for ParseError {'''), (E, '''f.write_fmt(format_args!("^ {r}"))''', "caret(f, r)"))
r("h-atomic", (T, '''        if let Ok(size) = s.parse::<u16>() {
            Ok(Self::IntegerSize(size))
        } else if''', '''        fn width(text: &str) -> Option<u16> {
            text.parse::<u16>().ok()
        }

        if let Some(size) = width(s) {
            Ok(Self::IntegerSize(size))
        } else if'''))

# ---- loops in other forms
POPALL = '''                    for _ in 0..*count {
                        let r = result_stack.pop().unwrap();
                        result = result.and(r);
                    }'''
POPANY = POPALL.replace(".and(", ".or(")
r("l-eval-down", (X, POPALL, '''                    let mut left = *count;
                    while left > 0 {
                        left -= 1;
                        let r = result_stack.pop().unwrap();
                        result = result.and(r);
                    }'''))
r("l-eval-up", (X, POPANY, '''                    let mut done = 0;
                    while done < *count {
                        let r = result_stack.pop().unwrap();
                        result = result.or(r);
                        done += 1;
                    }'''))
r("l-eval-fold", (X, '''                    let mut result = T::top();

''' + POPALL, '''                    let result = (0..*count).fold(T::top(), |acc, _| acc.and(result_stack.pop().unwrap()));'''))
r("l-eval-for-each", (X, POPANY, '''                    (0..*count).for_each(|_| {
                        let r = result_stack.pop().unwrap();
                        let sofar = std::mem::replace(&mut result, T::bottom());
                        result = sofar.or(r);
                    });'''))
r("l-eval-helper", (X, POPALL, '''                    let result = combine(&mut result_stack, *count, result, T::and);'''), (X, "let mut result = T::top();", "let result = T::top();"), (X, '''impl PartialEq for Expression {''', '''fn combine<T: Logic>(stack: &mut SmallVec<[T; 8]>, count: usize, init: T, op: fn(T, T) -> T) -> T {
    let mut acc = init;
    for _ in 0..count {
        let r = stack.pop().unwrap();
        acc = op(acc, r);
    }
    acc
}

impl PartialEq for Expression {'''))
r("l-eval-iter", (X, "        for node in self.expr.iter() {\n", "        let mut nodes = self.expr.iter();\n        while let Some(node) = nodes.next() {\n"))
r("l-eval-ref", (X, "        for node in self.expr.iter() {\n", "        for node in &self.expr {\n"))
r("l-eval-index", (X, "        for node in self.expr.iter() {\n", "        for i in 0..self.expr.len() {\n            let node = &self.expr[i];\n"))
r("l-eval-loop", (X, "        for node in self.expr.iter() {\n", "        let mut nodes = self.expr.iter();\n        loop {\n            let Some(node) = nodes.next() else { break };\n"))
r("l-parse-loop", (P, "        'outer: for lt in lexer {\n            let lt = lt?;\n", "        let mut tokens = lexer;\n        'outer: loop {\n            let lt = match tokens.next() {\n                Some(lt) => lt?,\n                None => break,\n            };\n"))
SPACES = '''        for _ in 0..self.span.start {
            f.write_str(" ")?;
        }'''
r("l-err-while", (E, SPACES, '''        let mut at = 0;
        while at < self.span.start {
            f.write_str(" ")?;
            at += 1;
        }'''))
r("l-err-try", (E, SPACES, '''        (0..self.span.start).try_for_each(|_| f.write_str(" "))?;'''))
r("l-err-repeat", (E, SPACES, '''        f.write_str(&" ".repeat(self.span.start))?;'''))
r("l-err-width", (E, SPACES, '''        write!(f, "{:1$}", "", self.span.start)?;'''))
r("l-err-helper", (E, SPACES, '''        fill(f, " ", self.span.start)?;'''), (E, '''                for _ in self.span.start..self.span.end {
                    f.write_str("^")?;
                }
''', '''                fill(f, "^", self.span.end.saturating_sub(self.span.start))?;
'''), (E, "impl fmt::Display for ParseError {", '''fn fill(f: &mut fmt::Formatter<'_>, what: &str, times: usize) -> fmt::Result {
    for _ in 0..times {
        f.write_str(what)?;
    }
    Ok(())
}

impl fmt::Display for ParseError {'''))
r("l-err-helper2", (E, SPACES, '''        fill(f, " ", self.span.start)?;'''), (E, "impl fmt::Display for ParseError {", '''fn fill(f: &mut fmt::Formatter<'_>, what: &str, times: usize) -> fmt::Result {
    for _ in 0..times {
        f.write_str(what)?;
    }
    Ok(())
}

impl fmt::Display for ParseError {'''))
r("l-err-index", (E, '''                    for (i, exp) in expected.iter().enumerate() {
''', '''                    for i in 0..expected.len() {
                        let exp = &expected[i];
'''))
r("l-fam-index", (T, '''        for (idx, family) in self.0.iter().enumerate() {
''', '''        for idx in 0..self.0.len() {
            let family = &self.0[idx];
'''))
r("l-atom-first", (T, '''        let len = self.0.len();
        for (idx, has_atomic) in self.0.iter().enumerate() {
            write!(f, "{has_atomic}")?;
            if idx + 1 < len {
                write!(f, ", ")?;
            }
        }''', '''        for (idx, has_atomic) in self.0.iter().enumerate() {
            if idx > 0 {
                write!(f, ", ")?;
            }
            write!(f, "{has_atomic}")?;
        }'''))
r("l-pred-while", (P, '''                            for pred in top.predicates {
                                expr_queue.push(ExprNode::Predicate(pred));
                            }''', '''                            let mut preds = top.predicates.into_iter();
                            while let Some(pred) = preds.next() {
                                expr_queue.push(ExprNode::Predicate(pred));
                            }'''))
# ---- derives written by hand, or the other way round
OSD = '''#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct Os(pub Cow<'static, str>);'''
FAMD = '''#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct Family(pub Cow<'static, str>);'''
r("d-eq-hand", (T, OSD, '''#[derive(Clone, Debug, Eq, Hash, Ord, PartialOrd)]
pub struct Os(pub Cow<'static, str>);

impl PartialEq for Os {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}'''))
r("d-eq-str", (T, OSD, '''#[derive(Clone, Debug, Eq, Hash, Ord, PartialOrd)]
pub struct Os(pub Cow<'static, str>);

impl PartialEq for Os {
    fn eq(&self, other: &Self) -> bool {
        self.as_str() == other.as_str()
    }
}'''))
r("d-ord-hand", (T, FAMD, '''#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Family(pub Cow<'static, str>);

impl PartialOrd for Family {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for Family {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        self.0.cmp(&other.0)
    }
}'''))
r("d-ord-str", (T, FAMD, '''#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct Family(pub Cow<'static, str>);

impl PartialOrd for Family {
    fn partial_cmp(&self, rhs: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(rhs))
    }
}

impl Ord for Family {
    fn cmp(&self, rhs: &Self) -> std::cmp::Ordering {
        self.as_str().cmp(rhs.as_str())
    }
}'''))
r("d-atomic-ord", (T, '''#[derive(Copy, Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
#[non_exhaustive]
pub enum HasAtomic {''', '''#[derive(Copy, Clone, Debug, Eq, Hash, PartialEq)]
#[non_exhaustive]
pub enum HasAtomic {'''), (T, "impl std::str::FromStr for HasAtomic {", '''impl PartialOrd for HasAtomic {
    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(other))
    }
}

impl Ord for HasAtomic {
    fn cmp(&self, other: &Self) -> std::cmp::Ordering {
        match (self, other) {
            (Self::IntegerSize(a), Self::IntegerSize(b)) => a.cmp(b),
            (Self::IntegerSize(_), Self::Pointer) => std::cmp::Ordering::Less,
            (Self::Pointer, Self::IntegerSize(_)) => std::cmp::Ordering::Greater,
            (Self::Pointer, Self::Pointer) => std::cmp::Ordering::Equal,
        }
    }
}

impl std::str::FromStr for HasAtomic {'''))
r("d-sets-eq", (T, '''#[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
pub struct HasAtomics(Cow<'static, [HasAtomic]>);''', '''#[derive(Clone, Debug, Eq, Hash, Ord, PartialOrd)]
pub struct HasAtomics(Cow<'static, [HasAtomic]>);

impl PartialEq for HasAtomics {
    fn eq(&self, other: &Self) -> bool {
        self.0 == other.0
    }
}'''))
r("d-expr-clone", (X, '''#[derive(Clone, Debug)]
pub struct Expression {''', '''#[derive(Debug)]
pub struct Expression {'''), (X, '''impl PartialEq for Expression {''', '''impl Clone for Expression {
    fn clone(&self) -> Self {
        Self {
            original: self.original.clone(),
            expr: self.expr.clone(),
        }
    }
}

impl PartialEq for Expression {'''))
r("d-copy-clone", (T, '''#[derive(Copy, Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
#[non_exhaustive]
pub enum HasAtomic {''', '''#[derive(Copy, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
#[non_exhaustive]
pub enum HasAtomic {'''), (T, "impl std::str::FromStr for HasAtomic {", '''impl Clone for HasAtomic {
    fn clone(&self) -> Self {
        *self
    }
}

impl std::str::FromStr for HasAtomic {'''))
r("d-which-copy", (X, '''#[derive(Clone, Debug)]
pub(crate) enum Which {''', '''#[derive(Clone, Copy, Debug)]
pub(crate) enum Which {'''))
r("d-split", (T, OSD, '''#[derive(Debug, Clone)]
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Os(pub Cow<'static, str>);'''))


def seg(f, a, b, off=0):
    """the text of a file from a to b (without it)"""
    t = open("/repo/" + f).read()
    i = t.index(a)
    return t[i:t.index(b, i + len(a) + off)]


PP = seg(P, "        let parse_predicate = |key", "\n\n        macro_rules! token_err") + "\n\n"
r("m-parse-predicate", (P, PP, ""), (P, "pub fn parse(original", "pub fn parse(original"),
  (P, "key.map(|key| parse_predicate(key, val))", "key.map(|key| parse_predicate(original, key, val))"),
  (P, "parse_predicate(key, val)?;\n                                expr_queue", "parse_predicate(original, key, val)?;\n                                expr_queue"),
  (P, "parse_predicate(key, val)?));", "parse_predicate(original, key, val)?));"),
  (P, "impl Expression {\n    /// Given", PP.replace("""        let parse_predicate = |key: (&str, std::ops::Range<usize>),
                               val: Option<(&str, std::ops::Range<usize>)>|
         -> Result<InnerPredicate, ParseError> {""", """fn parse_predicate(
    original: &str,
    key: (&str, std::ops::Range<usize>),
    val: Option<(&str, std::ops::Range<usize>)>,
) -> Result<InnerPredicate, ParseError> {""").replace("            use super::", "            use crate::expr::").rstrip().rstrip(";") + "\n\nimpl Expression {\n    /// Given"))
FS = seg(P, "        #[derive(Debug)]\n        struct FuncAndSpan", "        let mut func_stack")
r("m-struct-out", (P, FS, ""), (P, "impl Expression {\n    /// Given", FS.rstrip() + "\n\nimpl Expression {\n    /// Given"))
ENV = seg(X, "                // The environment is implied by some", "            Family(fam) => {\n                use Op")
ENVB = ENV.rstrip()[:-1].rstrip()
r("m-lexicon-env", (X, ENV, "                env_matches(self, env)\n            }\n"),
  (X, "impl TargetPredicate {", "#[cfg(feature = \"targets\")]\nfn env_matches(triple: &target_lexicon::Triple, env: &targ::Env) -> bool {\n    use target_lexicon::*;\n    const RTEMS: target_lexicon::Vendor =\n        target_lexicon::Vendor::Custom(target_lexicon::CustomVendor::Static(\"rtems\"));\n" + ENVB.replace("self.", "triple.") + "\n}\n\nimpl TargetPredicate {"))
r("m-lexicon-rtems", (X, "self.vendor == NUTTX || self.vendor == RTEMS => {", "self.vendor == RTEMS || self.vendor == NUTTX => {"))
r("m-lexicon-os", (X, '''                        // Handle special case for darwin/macos, where the triple is
                        // "darwin", but rustc identifies the OS as "macos"
                        if os == &targ::Os::macos
                            && matches!(self.operating_system, OperatingSystem::Darwin(_))
                        {
                            true
                        } else {
                            // For android, the os is still linux, but the environment is android
                            os == &targ::Os::android
                                && self.operating_system == OperatingSystem::Linux
                                && (self.environment == Environment::Android
                                    || self.environment == Environment::Androideabi)
                        }
''', '''                        let is_darwin = matches!(self.operating_system, OperatingSystem::Darwin(_));
                        let is_android = self.operating_system == OperatingSystem::Linux
                            && matches!(
                                self.environment,
                                Environment::Android | Environment::Androideabi
                            );
                        (os == &targ::Os::macos && is_darwin)
                            || (os == &targ::Os::android && is_android)
'''))
r("m-lexicon-linux", (X, '''                        if self.environment != Environment::Kernel {
                            fam == &crate::targets::Family::unix
                        } else {
                            false
                        }
''', '''                        self.environment != Environment::Kernel
                            && fam == &crate::targets::Family::unix
'''))
r("m-lexicon-vendor", (X, '''                    if self.vendor == v
                        || ((self.vendor == NUTTX || self.vendor == RTEMS)
                            && ven == &targ::Vendor::unknown)
                    {
                        true
                    } else if let target_lexicon::Vendor::Custom(custom) = &self.vendor {
                        matches!(custom.as_str(), "esp" | "esp32" | "esp32s2" | "esp32s3")
                            && (v == target_lexicon::Vendor::Espressif
                                || v == target_lexicon::Vendor::Unknown)
                    } else {
                        false
                    }
''', '''                    if self.vendor == v {
                        return true;
                    }
                    if (self.vendor == NUTTX || self.vendor == RTEMS)
                        && ven == &targ::Vendor::unknown
                    {
                        return true;
                    }
                    match &self.vendor {
                        target_lexicon::Vendor::Custom(custom) => {
                            let esp = matches!(custom.as_str(), "esp" | "esp32" | "esp32s2" | "esp32s3");
                            esp && (v == target_lexicon::Vendor::Unknown
                                || v == target_lexicon::Vendor::Espressif)
                        }
                        _ => false,
                    }
'''))
r("m-opt-field", (X, '''            // The ABI is allowed to be an empty string
            Abi(abi) => match &self.abi {
                Some(a) => abi == a,
                None => abi.0.is_empty(),
            },''', '''            // The ABI is allowed to be an empty string
            Abi(abi) => opt_eq(self.abi.as_ref(), abi, abi.0.is_empty()),'''),
  (X, '''            Env(env) => match &self.env {
                Some(e) => env == e,
                None => env.0.is_empty(),
            },''', '''            Env(env) => opt_eq(self.env.as_ref(), env, env.0.is_empty()),'''),
  (X, "impl TargetMatcher for targ::TargetInfo {", '''/// Compares with a field that may be absent
fn opt_eq<T: PartialEq>(field: Option<&T>, val: &T, absent: bool) -> bool {
    match field {
        Some(f) => f == val,
        None => absent,
    }
}

impl TargetMatcher for targ::TargetInfo {'''))
r("m-opt-str", (X, '''            Abi(abi) => match &self.abi {
                Some(a) => abi == a,
                None => abi.0.is_empty(),
            },''', '''            Abi(abi) => abi.as_str() == self.abi.as_ref().map_or("", |a| a.as_str()),'''),
  (X, '''            Env(env) => match &self.env {
                Some(e) => env == e,
                None => env.0.is_empty(),
            },''', '''            Env(env) => abi_or_empty(self.env.as_ref().map(|e| e.as_str())) == env.as_str(),'''),
  (X, "impl TargetMatcher for targ::TargetInfo {", '''fn abi_or_empty(s: Option<&str>) -> &str {
    s.unwrap_or("")
}

impl TargetMatcher for targ::TargetInfo {'''))
r("m-text", (X, '''impl InnerPredicate {
    fn to_pred''', '''impl InnerTarget {
    /// The text of the value
    #[inline]
    fn text(&self, s: &str) -> String {
        s[self.span.clone().unwrap()].to_owned()
    }
}

impl InnerPredicate {
    fn to_pred'''), *[(X, '''targ::%s::new(
                    s[it.span.clone().unwrap()].to_owned(),
                )''' % k, '''targ::%s::new(it.text(s))''' % k) for k in "Abi Arch Os Vendor Env Family Panic".split()])
r("m-as-pred", (X, '''        self.expr.iter().filter_map(move |item| match item {
            ExprNode::Predicate(pred) => {
                let pred = pred.clone().to_pred(&self.original);
                Some(pred)
            }
            ExprNode::Fn(_) => None,
        })''', '''        self.expr.iter().filter_map(move |item| item.as_pred(&self.original))'''),
  (X, '''/// A parsed `cfg()` expression that''', '''impl ExprNode {
    fn as_pred<'a>(&self, s: &'a str) -> Option<Predicate<'a>> {
        match self {
            Self::Predicate(pred) => Some(pred.to_pred(s)),
            Self::Fn(_) => None,
        }
    }
}

/// A parsed `cfg()` expression that'''))
r("m-sorted", (T, '''        let mut fams: Vec<_> = val.into_iter().collect();
        fams.sort_unstable();
        Self(Cow::Owned(fams))''', '''        Self(Cow::Owned(sorted(val)))'''), (T, '''        let mut has_atomics: Vec<_> = val.into_iter().collect();
        has_atomics.sort_unstable();
        Self(Cow::Owned(has_atomics))''', '''        Self(Cow::Owned(sorted(val)))'''),
  (T, "impl Families {", '''fn sorted<T: Ord>(val: impl IntoIterator<Item = T>) -> Vec<T> {
    let mut v: Vec<T> = val.into_iter().collect();
    v.sort_unstable();
    v
}

impl Families {'''))
r("m-fmt-set", (T, '''        write!(f, "{{")?;
        let len = self.0.len();
        for (idx, family) in self.0.iter().enumerate() {
            write!(f, "{family}")?;
            if idx + 1 < len {
                write!(f, ", ")?;
            }
        }
        write!(f, "}}")''', '''        fmt_set(&self.0, f)'''), (T, '''        write!(f, "{{")?;
        let len = self.0.len();
        for (idx, has_atomic) in self.0.iter().enumerate() {
            write!(f, "{has_atomic}")?;
            if idx + 1 < len {
                write!(f, ", ")?;
            }
        }
        write!(f, "}}")''', '''        fmt_set(&self.0, f)'''), (T, "impl Families {", '''fn fmt_set<T: std::fmt::Display>(
    items: &[T],
    f: &mut std::fmt::Formatter<'_>,
) -> std::fmt::Result {
    f.write_str("{")?;
    for (idx, item) in items.iter().enumerate() {
        if idx > 0 {
            f.write_str(", ")?;
        }
        write!(f, "{item}")?;
    }
    f.write_str("}")
}

impl Families {'''))
r("m-lexer-word", (L, '''                    match substr {
                        "all" => Some(Ok(Token::All)),
                        "any" => Some(Ok(Token::Any)),
                        "not" => Some(Ok(Token::Not)),
                        other => Some(Ok(Token::Key(other))),
                    }''', '''                    Some(Ok(word(substr)))'''), (L, '''impl<'a> Iterator for Lexer<'a> {''', '''fn word(s: &str) -> Token<'_> {
    match s {
        "all" => Token::All,
        "any" => Token::Any,
        "not" => Token::Not,
        _ => Token::Key(s),
    }
}

impl<'a> Iterator for Lexer<'a> {'''))
r("m-lexer-next", (L, '''        match self.inner.chars().next() {
            None => None,
            Some('=') => Some(Ok(Token::Equals)),''', '''        let first = self.inner.chars().next()?;
        match first {
            '=' => Some(Ok(Token::Equals)),'''), (L, "Some('(') =>", "'(' =>"), (L, "Some(')') =>", "')' =>"), (L, "Some(',') =>", "',' =>"), (L, "            Some(c) => {\n", "            c => {\n"))
r("m-lexer-err", (L, '''                        None => Some(Err(ParseError {
                            original: self.original.to_owned(),
                            span: self.offset..self.original.len(),
                            reason: Reason::UnclosedQuotes,
                        })),''', '''                        None => Some(Err(self.error(self.original.len(), Reason::UnclosedQuotes))),'''), (L, '''                    Some(Err(ParseError {
                        original: self.original.to_owned(),
                        span: self.offset..self.offset + c.len_utf8(),
                        reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),
                    }))''', '''                    Some(Err(self.error(
                        self.offset + c.len_utf8(),
                        Reason::Unexpected(&["<key>", "all", "any", "not"]),
                    )))'''), (L, '''            offset: 0,
        }
    }
''', '''            offset: 0,
        }
    }

    fn error(&self, end: usize, reason: Reason) -> ParseError {
        ParseError {
            original: self.original.to_owned(),
            span: self.offset..end,
            reason,
        }
    }
'''))
r("m-err-caret", (E, '''        match &self.reason {
            r @ (Reason::UnclosedParens | Reason::UnclosedQuotes) => {
                f.write_fmt(format_args!("- {r}"))
            }
            r @ (Reason::UnopenedParens | Reason::UnopenedQuotes) => {
                f.write_fmt(format_args!("^ {r}"))
            }
            other => {''', '''        match self.reason {
            Reason::UnclosedParens | Reason::UnclosedQuotes => write!(f, "- {}", self.reason),
            Reason::UnopenedParens | Reason::UnopenedQuotes => write!(f, "^ {}", self.reason),
            _ => {
                let other = &self.reason;'''))
r("m-err-one", (E, '''                if expected.len() > 1 {
                    f.write_str("expected one of ")?;

                    for (i, exp) in expected.iter().enumerate() {
                        f.write_fmt(format_args!("{}`{exp}`", if i > 0 { ", " } else { "" }))?;
                    }
                    f.write_str(" here")
                } else if !expected.is_empty() {
                    f.write_fmt(format_args!("expected a `{}` here", expected[0]))
                } else {
                    f.write_str("the term was not expected here")
                }''', '''                if expected.is_empty() {
                    return f.write_str("the term was not expected here");
                }
                if expected.len() == 1 {
                    return write!(f, "expected a `{}` here", expected[0]);
                }
                f.write_str("expected one of ")?;
                for (i, exp) in expected.iter().enumerate() {
                    if i != 0 {
                        f.write_str(", ")?;
                    }
                    write!(f, "`{exp}`")?;
                }
                f.write_str(" here")'''))
r("m-tokens", (P, "matches!(last_token, None | Some(Token::OpenParen | Token::Comma)) {\n                        pred_key", "starts_pred(last_token.as_ref()) {\n                        pred_key"),
  (P, "matches!(last_token, None | Some(Token::OpenParen | Token::Comma)) {\n                        let new_fn", "starts_pred(last_token.as_ref()) {\n                        let new_fn"),
  (P, "impl Expression {\n    /// Given", '''/// Whether a predicate can follow the token
fn starts_pred(last: Option<&Token<'_>>) -> bool {
    matches!(last, None | Some(Token::OpenParen | Token::Comma))
}

impl Expression {
    /// Given'''))
r("m-close", (P, '''                    if matches!(
                        last_token,
                        None | Some(Token::All | Token::Any | Token::Not | Token::Equals)
                    ) {
                        token_err!(lt.span)
                    } else {
                        if let Some(top) = func_stack.pop() {''', '''                    if matches!(
                        last_token,
                        None | Some(Token::All | Token::Any | Token::Not | Token::Equals)
                    ) {
                        token_err!(lt.span)
                    } else {
                        // The innermost function ends here
                        if !func_stack.is_empty() {
                            let top = func_stack.pop().unwrap();'''))
r("m-not-check", (P, '''                            let func = match top.func {
                                Func::All(_) => Func::All(num_predicates),
                                Func::Any(_) => Func::Any(num_predicates),
                                Func::Not => {
                                    // not() doesn't take a predicate list, but only a single predicate,
                                    // so ensure we have exactly 1
                                    if num_predicates != 1 {
                                        return Err(ParseError {
                                            original: original.to_owned(),
                                            span: top.span.start..lt.span.end,
                                            reason: Reason::InvalidNot(num_predicates),
                                        });
                                    }

                                    Func::Not
                                }
                            };
''', '''                            // not() doesn't take a predicate list, but only a single predicate
                            if top.func == Func::Not && num_predicates != 1 {
                                return Err(ParseError {
                                    original: original.to_owned(),
                                    span: top.span.start..lt.span.end,
                                    reason: Reason::InvalidNot(num_predicates),
                                });
                            }

                            let func = match top.func {
                                Func::All(_) => Func::All(num_predicates),
                                Func::Any(_) => Func::Any(num_predicates),
                                Func::Not => Func::Not,
                            };
'''))
r("m-opt-and", (X, '''        match (self, other) {
            // If either is false, the expression is false.
            (Some(false), _) | (_, Some(false)) => Some(false),
            // If both are true, the expression is true.
            (Some(true), Some(true)) => Some(true),
            // One or both are unknown -- the result is unknown.
            _ => None,
        }''', '''        if self == Some(false) || other == Some(false) {
            Some(false)
        } else if self.is_none() || other.is_none() {
            None
        } else {
            Some(true)
        }'''), (X, "        self.map(|v| !v)\n", '''        match self {
            Some(v) => Some(!v),
            None => None,
        }
'''))
r("m-lookup", (T, '''    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
''', '''    let index = ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_str().cmp(triple))
        .ok()?;
    Some(&ALL_BUILTINS[index])
'''))
r("m-lookup2", (T, '''    ALL_BUILTINS
        .binary_search_by(|ti| ti.triple.as_ref().cmp(triple))
        .map(|i| &ALL_BUILTINS[i])
        .ok()
''', '''    let found = ALL_BUILTINS.binary_search_by(|info| {
        let name: &str = info.triple.as_ref();
        name.cmp(triple)
    });
    if let Ok(i) = found {
        ALL_BUILTINS.get(i)
    } else {
        None
    }
'''))
r("q-last-eq", (P, "        if let Some(Token::Equals) = last_token {\n            return", "        if last_token == Some(Token::Equals) {\n            return"))
r("q-value-eq", (P, "if matches!(last_token, Some(Token::Equals)) {\n                        // We only", "if last_token == Some(Token::Equals) {\n                        // We only"))
r("q-value-ne", (P, '''                    if matches!(last_token, Some(Token::Equals)) {
                        // We only''', '''                    if last_token != Some(Token::Equals) {
                        token_err!(lt.span)
                    } else {
                        // We only'''), (P, '''                        pred_val = Some((v, lt.span.start + 1..lt.span.end - 1));
                    } else {
                        token_err!(lt.span)
                    }''', '''                        pred_val = Some((v, lt.span.start + 1..lt.span.end - 1));
                    }'''))
r("q-func-ne", (P, "                                    if num_predicates != 1 {\n", "                                    if top.func == Func::Not && num_predicates != 1 {\n"))
r("q-width-eq", (X, "            PointerWidth(w) => *w == self.pointer_width,", "            PointerWidth(w) => w == &self.pointer_width,"))
r("q-endian-match", (X, "            Endian(end) => *end == self.endian,", "            Endian(end) => matches!((end, &self.endian), (targ::Endian::big, targ::Endian::big) | (targ::Endian::little, targ::Endian::little)),"))
r("q-opt-or", (X, '''            // If either is true, the expression is true.
            (Some(true), _) | (_, Some(true)) => Some(true),
            // If both are false, the expression is false.
            (Some(false), Some(false)) => Some(false),
            // One or both are unknown -- the result is unknown.
            _ => None,''', '''            (Some(a), Some(b)) => Some(a || b),
            (Some(true), None) | (None, Some(true)) => Some(true),
            _ => None,'''))
r("q-opt-or2", (X, '''        match (self, other) {
            // If either is true, the expression is true.
            (Some(true), _) | (_, Some(true)) => Some(true),
            // If both are false, the expression is false.
            (Some(false), Some(false)) => Some(false),
            // One or both are unknown -- the result is unknown.
            _ => None,
        }''', '''        match self {
            Some(true) => Some(true),
            Some(false) => other,
            None if other == Some(true) => Some(true),
            None => None,
        }'''))
r("q-lexer-len", (L, '''            Token::Equals | Token::OpenParen | Token::CloseParen | Token::Comma => 1,
            Token::All | Token::Any | Token::Not => 3,''', '''            Token::All | Token::Any | Token::Not => 3,
            _ => 1,'''))
r("q-err-eq", (E, '''        match &self.reason {
            r @ (Reason::UnclosedParens | Reason::UnclosedQuotes) => {
                f.write_fmt(format_args!("- {r}"))
            }
''', '''        if self.reason == Reason::UnclosedParens || self.reason == Reason::UnclosedQuotes {
            return write!(f, "- {}", self.reason);
        }
        match &self.reason {
'''))
r("q-err-unreach", (E, '''            Unexpected(expected) => {
                if expected.len() > 1 {''', '''            Unexpected(expected) => {
                if expected.len() >= 2 {'''))
