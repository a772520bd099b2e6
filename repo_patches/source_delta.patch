From 8434b10c052fc9d28e78f783c73dbbcdd0750b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 1/4] fix: don't overflow the nested function count of a
 predicate list

More than 255 functions directly inside one all()/any() overflowed the u8
counter: a panic with overflow checks, a wrong operand count without.
---
 src/expr/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 4b5014e..abf2d16 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -27,7 +27,7 @@ impl Expression {
             parens_index: usize,
             span: std::ops::Range<usize>,
             predicates: SmallVec<[InnerPredicate; 5]>,
-            nest_level: u8,
+            nest_level: usize,
         }
 
         let mut func_stack = SmallVec::<[FuncAndSpan; 5]>::new();
@@ -317,7 +317,7 @@ impl Expression {
                             #[allow(clippy::bool_to_int_with_if)]
                             let num_predicates = top.predicates.len()
                                 + if key.is_some() { 1 } else { 0 }
-                                + top.nest_level as usize;
+                                + top.nest_level;
 
                             let func = match top.func {
                                 Func::All(_) => Func::All(num_predicates),
-- 
2.43.0


From a48e60ce7f39805950847b352a6b0a6e4173161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 2/4] fix: count functions as root predicates

`all(), any()` and `unix, all()` parsed successfully, and all but the last
root predicate was silently ignored by eval().
---
 src/expr/parser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index abf2d16..90fa363 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -237,7 +237,7 @@ impl Expression {
         let mut pred_key: Option<(&str, _)> = None;
         let mut pred_val: Option<(&str, _)> = None;
 
-        let mut root_predicate_count = 0;
+        let mut root_predicate_count = 0usize;
 
         // Basic implementation of the https://en.wikipedia.org/wiki/Shunting-yard_algorithm
         'outer: for lt in lexer {
@@ -348,6 +348,10 @@ impl Expression {
 
                             expr_queue.push(ExprNode::Fn(func));
 
+                            if func_stack.is_empty() {
+                                root_predicate_count += 1;
+                            }
+
                             // This is the only place we go back to the top of the outer loop,
                             // so make sure we correctly record this token
                             last_token = Some(Token::CloseParen);
-- 
2.43.0


From c6e98852310a4434bc86989d9c96989fd7ef0c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 3/4] fix: reject a comma that follows another comma

`all(a,,b)` and `a,,` were accepted although there is no predicate between
the two commas.
---
 src/expr/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/expr/parser.rs b/src/expr/parser.rs
index 90fa363..3f86873 100644
--- a/src/expr/parser.rs
+++ b/src/expr/parser.rs
@@ -370,7 +370,12 @@ impl Expression {
                     if matches!(
                         last_token,
                         None | Some(
-                            Token::OpenParen | Token::All | Token::Any | Token::Not | Token::Equals
+                            Token::OpenParen
+                                | Token::All
+                                | Token::Any
+                                | Token::Not
+                                | Token::Equals
+                                | Token::Comma
                         )
                     ) {
                         token_err!(lt.span)
-- 
2.43.0


From 9698acf75edb5f2e09c3d790de9e6b84154ecbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:32 +0000
Subject: [PATCH 4/4] fix: span of an unexpected non-ASCII character

The span of the error ended inside of the character, so slicing the
original string with it panicked.
---
 src/expr/lexer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/expr/lexer.rs b/src/expr/lexer.rs
index 60abc6b..088ba82 100644
--- a/src/expr/lexer.rs
+++ b/src/expr/lexer.rs
@@ -133,12 +133,9 @@ impl<'a> Iterator for Lexer<'a> {
                         other => Some(Ok(Token::Key(other))),
                     }
                 } else {
-                    // clippy tries to help here, but we need
-                    // a Range here, not a RangeInclusive<>
-                    #[allow(clippy::range_plus_one)]
                     Some(Err(ParseError {
                         original: self.original.to_owned(),
-                        span: self.offset..self.offset + 1,
+                        span: self.offset..self.offset + c.len_utf8(),
                         reason: Reason::Unexpected(&["<key>", "all", "any", "not"]),
                     }))
                 }
-- 
2.43.0

