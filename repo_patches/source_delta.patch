From 6bd351485f14a6ca524cbd104a84e90e3b96311f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 01/54] fix: token after a multi-byte character starts in the
 middle of that character

---
 lexer/src/lib.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 52f99d4..0f74713 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -118,7 +118,7 @@ impl<'a> Lexer<'a> {
 
         let current = self.reader.current()?;
 
-        let start = self.reader.position();
+        let start = self.current_position();
         let value = match current {
             '/' if self.state.regex_allowed => self.read_regexp_literal(),
             // <op>=
@@ -452,6 +452,17 @@ impl<'a> Lexer<'a> {
         Ok(())
     }
 
+    /// Byte position of the current code point, i.e. where the next token starts.
+    fn current_position(&self) -> usize {
+        // The position of the reader does not include all bytes of a multi-byte code point.
+        let mut position = self.reader.position();
+        while !self.data.is_char_boundary(position) {
+            position += 1;
+        }
+
+        position
+    }
+
     fn is_end(&self) -> bool {
         use fajt_common::io::char_reader::Error;
         matches!(self.reader.current(), Err(Error::EndOfStream))
-- 
2.43.0


From be65d8b77054425601e8b79ee7826e085b3bcc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 02/54] fix: `<!` not followed by `--` is not an HTML comment

---
 lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index 0f74713..d705e0f 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -264,7 +264,7 @@ impl<'a> Lexer<'a> {
                     self.skip_single_line_comment();
                     self.first_on_line = true;
                 }
-                Ok('<') if self.reader.peek().ok() == Some(&'!') => {
+                Ok('<') if self.data[self.current_position()..].starts_with("<!--") => {
                     if !self.state.html_comment_allowed {
                         let position = self.reader.position();
                         return Err(Error::syntax_error(
-- 
2.43.0


From 65210fba167af5131a87e40cd53d29fa69ed6899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 03/54] fix: numeric separator is only allowed between digits

---
 lexer/src/number.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index c5dd841..17d0eb1 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -11,7 +11,7 @@ impl<'a> Lexer<'a> {
             Ok('x' | 'X') if current == &'0' => self.read_hex_string()?,
             Ok('o' | 'O') if current == &'0' => self.read_octal_string()?,
             Ok('b' | 'B') if current == &'0' => self.read_binary_string()?,
-            Ok('0'..='9') if current == &'0' => {
+            Ok('0'..='9' | '_') if current == &'0' => {
                 let position = self.reader.position();
                 return Err(Error::syntax_error(
                     "Zero prefixed numbers are deprecated and not supported".to_owned(),
@@ -141,6 +141,14 @@ impl<'a> Lexer<'a> {
             ));
         }
 
+        if number_str.starts_with('_') {
+            let span_end = self.reader.position();
+            return Err(Error::syntax_error(
+                "Number cannot start with underscore".to_owned(),
+                (span_start, span_end),
+            ));
+        }
+
         if number_str.ends_with('_') {
             let span_end = self.reader.position();
             return Err(Error::syntax_error(
-- 
2.43.0


From e788f5becc391eb572d0f8bef244373b78b2bda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 04/54] fix: number must not be directly followed by a digit or
 an escaped identifier

---
 lexer/src/number.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lexer/src/number.rs b/lexer/src/number.rs
index 17d0eb1..855f3a9 100644
--- a/lexer/src/number.rs
+++ b/lexer/src/number.rs
@@ -21,12 +21,9 @@ impl<'a> Lexer<'a> {
             _ => self.read_decimal_string()?,
         };
 
-        if self
-            .reader
-            .current()
-            .ok()
-            .map_or(false, CodePoint::is_start_of_identifier)
-        {
+        if self.reader.current().ok().map_or(false, |c| {
+            c.is_start_of_identifier() || c.is_ascii_digit() || c == &'\\'
+        }) {
             let position = self.reader.position();
             return Err(Error::syntax_error(
                 "Number cannot be followed by identifier without separation".to_owned(),
-- 
2.43.0


From f094e6a88ad4e90ef24691748ea62df45f83ab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 05/54] fix: restore lexer state when re-reading a token fails

---
 lexer/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index d705e0f..d9a3993 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -571,10 +571,10 @@ impl ReReadWithState<Token> for Lexer<'_> {
         mut state: LexerState,
     ) -> std::result::Result<(usize, Token), Self::Error> {
         mem::swap(&mut state, &mut self.state);
-        let result = self.next()?;
+        let result = self.next();
         mem::swap(&mut self.state, &mut state);
 
-        Ok(result)
+        result
     }
 }
 
-- 
2.43.0


From 2bd398d68b467cf80f5e588e425c9a317def658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 06/54] fix: all line terminators terminate a regular
 expression literal

---
 lexer/src/regexp.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/lexer/src/regexp.rs b/lexer/src/regexp.rs
index 778e273..bc29c04 100644
--- a/lexer/src/regexp.rs
+++ b/lexer/src/regexp.rs
@@ -18,18 +18,14 @@ impl Lexer<'_> {
             result.push(c);
 
             match c {
-                '\n' => {
-                    let span_end = self.reader.position();
-                    return Err(Error::syntax_error(
-                        "Unterminated regular expression literal".to_owned(),
-                        (span_start, span_end - 1),
-                    ));
+                c if c.is_ecma_line_terminator() => {
+                    return Err(self.unterminated_regexp(span_start));
                 }
                 '/' => break,
                 '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
                     result.push(self.reader.consume()?)
                 }
-                '[' => result.push_str(&self.read_regexp_group_body()?),
+                '[' => result.push_str(&self.read_regexp_group_body(span_start)?),
                 _ => {}
             }
         }
@@ -40,19 +36,31 @@ impl Lexer<'_> {
         Ok(TokenValue::Literal(Literal::Regexp(result)))
     }
 
-    fn read_regexp_group_body(&mut self) -> Result<String> {
+    fn read_regexp_group_body(&mut self, span_start: usize) -> Result<String> {
         let mut result = String::new();
         loop {
             let c = self.reader.consume()?;
             result.push(c);
 
             match c {
+                c if c.is_ecma_line_terminator() => {
+                    return Err(self.unterminated_regexp(span_start));
+                }
                 ']' => break,
-                '\\' => result.push(self.reader.consume()?),
+                '\\' if !self.reader.current()?.is_ecma_line_terminator() => {
+                    result.push(self.reader.consume()?)
+                }
                 _ => {}
             }
         }
 
         Ok(result)
     }
+
+    fn unterminated_regexp(&self, span_start: usize) -> Error {
+        Error::syntax_error(
+            "Unterminated regular expression literal".to_owned(),
+            (span_start, self.reader.position() - 1),
+        )
+    }
 }
-- 
2.43.0


From 65c90904e6bd5dfc6a9eb4af578f7a0da7d32c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 07/54] fix: token after a template literal is not first on
 line because its closing brace is

---
 lexer/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lexer/src/lib.rs b/lexer/src/lib.rs
index d9a3993..746fb71 100644
--- a/lexer/src/lib.rs
+++ b/lexer/src/lib.rs
@@ -398,6 +398,8 @@ impl<'a> Lexer<'a> {
             TokenValue::TemplateTail(value)
         };
 
+        self.first_on_line = false;
+
         let span = Span::new(span_start, self.reader.position());
         Ok(Token {
             span,
-- 
2.43.0


From a5a13d1710bfe41e13c896b6bbddc4c15f8244fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 08/54] fix: semicolon is only optional where automatic
 semicolon insertion applies

---
 parser/src/stmt.rs     | 10 +++++-----
 parser/src/variable.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 03f6c9e..748b495 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -188,7 +188,7 @@ where
         self.consume_assert(&keyword!("break"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtBreak { span, label }.into())
@@ -200,7 +200,7 @@ where
         self.consume_assert(&keyword!("continue"))?;
 
         let label = (!self.stmt_ended()).then_try(|| self.parse_identifier())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtContinue { span, label }.into())
@@ -220,7 +220,7 @@ where
 
         let argument = (!self.stmt_ended())
             .then_try(|| self.with_context(self.context.with_in(true)).parse_expr())?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtReturn {
@@ -249,7 +249,7 @@ where
         }
 
         let argument = self.with_context(self.context.with_in(true)).parse_expr()?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtThrow {
@@ -264,7 +264,7 @@ where
         let span_start = self.position();
 
         self.consume_assert(&keyword!("debugger"))?;
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtDebugger { span }.into())
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index dd1e021..4fc3182 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -21,7 +21,7 @@ where
         } else {
             self.parse_variable_declarations()?
         };
-        self.maybe_consume(&punct!(";"))?;
+        self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
         Ok(StmtVariable {
-- 
2.43.0


From be43f544381bc3b797de1696cde4b9835356e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 09/54] fix: in operator is allowed inside brackets, templates
 and declarations regardless of the enclosing for header

---
 parser/src/assignment_pattern.rs |  7 ++++---
 parser/src/expr.rs               |  8 ++++++--
 parser/src/lib.rs                |  4 +++-
 parser/src/literal.rs            | 11 ++++++++---
 parser/src/member_access.rs      |  6 ++----
 parser/src/stmt.rs               |  2 +-
 parser/src/variable.rs           |  9 +++------
 7 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c1de817..be85987 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -186,9 +186,10 @@ where
         let span_start = self.position();
 
         let ident = self.parse_identifier()?;
-        let initializer = self
-            .current_matches(&punct!("="))
-            .then_try(|| self.parse_initializer())?;
+        let initializer = self.current_matches(&punct!("=")).then_try(|| {
+            self.with_context(self.context.with_in(true))
+                .parse_initializer()
+        })?;
 
         let span = self.span_from(span_start);
         Ok(SingleNameAssignmentProp {
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 1ecd11c..a2e4c32 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -289,7 +289,9 @@ where
 
         if self.current_matches(&punct!("?")) {
             self.consume()?;
-            let consequent = self.parse_assignment_expr()?;
+            let consequent = self
+                .with_context(self.context.with_in(true))
+                .parse_assignment_expr()?;
 
             self.consume_assert(&punct!(":"))?;
 
@@ -565,7 +567,9 @@ where
         let span_start = self.position();
 
         self.consume_assert(&punct!("("))?;
-        let expr = self.parse_assignment_expr()?;
+        let expr = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let span = self.span_from(span_start);
diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 5a9fd49..b646ce8 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -423,7 +423,9 @@ where
             }
             token_matches!(punct!("[")) => {
                 self.consume()?;
-                let expr = self.parse_assignment_expr()?;
+                let expr = self
+                    .with_context(self.context.with_in(true))
+                    .parse_assignment_expr()?;
                 self.consume_assert(&punct!("]"))?;
                 Ok(PropertyName::Computed(expr.into()))
             }
diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index 02d8625..e550b49 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -75,7 +75,8 @@ where
         parts: &mut Vec<TemplatePart>,
     ) -> Result<()> {
         loop {
-            parts.push(TemplatePart::Expr(Box::new(self.parse_expr()?)));
+            let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
+            parts.push(TemplatePart::Expr(Box::new(expr)));
             self.reader
                 .reread_with_state(LexerState::inside_template())?;
 
@@ -129,7 +130,9 @@ where
                 break;
             }
 
-            let element = self.parse_array_element()?;
+            let element = self
+                .with_context(self.context.with_in(true))
+                .parse_array_element()?;
             if element != ArrayElement::Elision {
                 self.consume_list_delimiter(&punct!("]"))?;
             }
@@ -174,7 +177,9 @@ where
                 break;
             }
 
-            let prop = self.parse_property_definition()?;
+            let prop = self
+                .with_context(self.context.with_in(true))
+                .parse_property_definition()?;
 
             // This is covered by the `CoverInitializedName` production. It is invalid syntax in an
             // object literal.
diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 98e13bd..635704f 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -137,9 +137,7 @@ where
                 Ok(MemberProperty::Ident(identifier))
             }
             token_matches!(ok: punct!("[")) => {
-                let member = self
-                    .with_context(self.context.with_in(true))
-                    .parse_computed_property()?;
+                let member = self.parse_computed_property()?;
                 Ok(MemberProperty::Expr(member.into()))
             }
             _ => unreachable!(),
@@ -148,7 +146,7 @@ where
 
     fn parse_computed_property(&mut self) -> Result<Expr> {
         self.consume_assert(&punct!("["))?;
-        let expr = self.parse_expr()?;
+        let expr = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!("]"))?;
 
         Ok(expr)
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 748b495..70c1ead 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -300,7 +300,7 @@ where
 
         self.consume_assert(&keyword!("with"))?;
         self.consume_assert(&punct!("("))?;
-        let object = self.parse_expr()?;
+        let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
 
         let body = self.parse_stmt()?;
diff --git a/parser/src/variable.rs b/parser/src/variable.rs
index 4fc3182..3075006 100644
--- a/parser/src/variable.rs
+++ b/parser/src/variable.rs
@@ -15,12 +15,9 @@ where
         let token = self.consume()?;
         let span_start = token.span.start;
 
-        let declarations = if kind == VariableKind::Var {
-            self.with_context(self.context.with_in(true))
-                .parse_variable_declarations()?
-        } else {
-            self.parse_variable_declarations()?
-        };
+        let declarations = self
+            .with_context(self.context.with_in(true))
+            .parse_variable_declarations()?;
         self.consume_optional_semicolon()?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From 81ee68bb7ba2c1fbd9070ac08286f6b31f756f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 10/54] fix: unary expression is not allowed as base of an
 exponentiation

---
 parser/src/binary_expr.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index ab3bfa2..046757f 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -1,5 +1,5 @@
 use crate::error::Result;
-use crate::Parser;
+use crate::{Error, Parser};
 use fajt_ast::binary_op;
 use fajt_ast::logical_op;
 use fajt_ast::{BinaryOperator, Expr, ExprBinary, ExprLogical, LogicalOperator, Span};
@@ -136,7 +136,7 @@ where
 
     /// Parses the `ExponentiationExpression` production.
     fn parse_exponentiation_expr(&mut self) -> Result<Expr> {
-        self.parse_binary_expr(Self::parse_unary_expr, |token| {
+        self.parse_binary_expr(Self::parse_exponentiation_operand, |token| {
             if token_matches!(token, punct!("**")) {
                 Some(binary_op!("**"))
             } else {
@@ -150,6 +150,17 @@ where
     ///
     /// `next` is a method for retrieving the result of the _next_ production (i.e. right hand).
     /// `map_operator` is a function for mapping a token to a binary operator.
+    /// Parses an operand of the `ExponentiationExpression` production, where an unary expression
+    /// is not allowed as base without parentheses.
+    fn parse_exponentiation_operand(&mut self) -> Result<Expr> {
+        let expr = self.parse_unary_expr()?;
+        if matches!(expr, Expr::Unary(_) | Expr::Await(_)) && self.current_matches(&punct!("**")) {
+            return Err(Error::unexpected_token(self.consume()?));
+        }
+
+        Ok(expr)
+    }
+
     #[inline]
     fn parse_binary_expr<F>(
         &mut self,
-- 
2.43.0


From 628158016bcdcfa0e9fe978a34ae2425edf71187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 11/54] fix: `??` cannot be mixed with `||` and `&&` without
 parentheses

---
 parser/src/binary_expr.rs          |  8 ++++++--
 parser/src/static_semantics/mod.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/parser/src/binary_expr.rs b/parser/src/binary_expr.rs
index 046757f..758c068 100644
--- a/parser/src/binary_expr.rs
+++ b/parser/src/binary_expr.rs
@@ -1,4 +1,5 @@
 use crate::error::Result;
+use crate::static_semantics::ExprSemantics;
 use crate::{Error, Parser};
 use fajt_ast::binary_op;
 use fajt_ast::logical_op;
@@ -16,13 +17,16 @@ where
 {
     /// Parses the `ShortCircuitExpression` production.
     pub(super) fn parse_short_circuit_expr(&mut self) -> Result<Expr> {
-        self.parse_logical_expr(Self::parse_logical_or_expr, |token| {
+        let expr = self.parse_logical_expr(Self::parse_logical_or_expr, |token| {
             if token_matches!(token, punct!("??")) {
                 Some(logical_op!("??"))
             } else {
                 None
             }
-        })
+        })?;
+
+        expr.early_errors_coalesce_expr()?;
+        Ok(expr)
     }
 
     /// Parses the `LogicalORExpression` production.
diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index 5002e41..ecb87f9 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -3,6 +3,7 @@ mod macros;
 
 use crate::error::Result;
 use crate::{Context, Error};
+use fajt_ast::{logical_op, LogicalOperator};
 use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, Spanned};
 
 impl_trait!(
@@ -53,6 +54,31 @@ impl_trait!(
             Ok(())
         }
 
+        fn early_errors_coalesce_expr(&self) -> Result<()> {
+            let mut expr = self;
+            while let Expr::Logical(logical) = expr {
+                if logical.operator != logical_op!("??") {
+                    break;
+                }
+
+                for operand in [&*logical.left, &*logical.right] {
+                    match operand {
+                        Expr::Logical(operand) if operand.operator != logical_op!("??") => {
+                            return Err(Error::syntax_error(
+                                "Cannot mix `??` with `||` or `&&` without parentheses".to_owned(),
+                                operand.span.clone(),
+                            ));
+                        }
+                        _ => {}
+                    }
+                }
+
+                expr = &logical.left;
+            }
+
+            Ok(())
+        }
+
         fn early_errors_unary_delete(&self, context: &Context) -> Result<()> {
             if !context.is_strict {
                 return Ok(());
-- 
2.43.0


From 0759f0d6ce7d1751b16553458699ca5658ad423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:46 +0000
Subject: [PATCH 12/54] fix: async is only a keyword when it heads an async
 function or arrow function

---
 parser/src/cover.rs  | 18 ++++++++++++------
 parser/src/expr.rs   | 29 ++++++++++++-----------------
 parser/src/module.rs | 13 +++++++++----
 parser/src/stmt.rs   |  4 +++-
 4 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 8df052c..5109628 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -46,16 +46,22 @@ where
     }
 
     /// Parses and resolves the `CoverCallExpressionAndAsyncArrowHead` production.
+    /// If an async arrow function is parsed, it is returned as an error because it is only valid
+    /// higher up in the tree. The error must be caught higher up.
     pub(super) fn parse_cover_call_or_async_arrow_head(&mut self) -> Result<Expr> {
         let start_token = self.current()?.clone();
+        let may_be_arrow_head = !self.followed_by_new_line();
+
         match self.parse_covered_call_expression() {
-            Ok(expr) if !self.current_matches(&punct!("=>")) => Ok(expr),
-            Ok(_) => {
-                self.reader.rewind_to(&start_token)?;
-                self.parse_async_arrow_function_expr()
-            }
-            error => error,
+            Ok(_) if may_be_arrow_head && self.current_matches(&punct!("=>")) => {}
+            Err(error) if may_be_arrow_head && error.kind() == &InitializedNameNotAllowed => {}
+            result => return result,
         }
+
+        self.reader.rewind_to(&start_token)?;
+        Err(Error::arrow_function_not_allowed(
+            self.parse_async_arrow_function_expr()?,
+        ))
     }
 
     /// Parses the `CallExpression` covered by `CoverCallExpressionAndAsyncArrowHead`.
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index a2e4c32..72d6d02 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -59,7 +59,11 @@ where
             token_matches!(ok: keyword!("yield")) if self.context.is_yield => {
                 self.parse_yield_expr()
             }
-            token_matches!(ok: keyword!("async")) => self.parse_assignment_expr_async(),
+            token_matches!(ok: keyword!("async"))
+                if self.peek_is_identifier() && !self.followed_by_new_line() =>
+            {
+                self.parse_async_arrow_function_expr()
+            }
             _ if self.is_identifier() && self.peek_matches(&punct!("=>")) => {
                 self.parse_arrow_function_expr()
             }
@@ -181,21 +185,6 @@ where
         }
     }
 
-    /// Parses the part of `AssignmentExpression` that starts with the `async` keyword.
-    /// Examples:
-    /// 1. `async => {}` // Non async arrow function with the name async.
-    /// 2. `async a => {}` // Async arrow function without parameter parentheses.
-    /// 3. `async(a) => {}` // Async arrow function with parentheses.
-    /// 4. `async(a)` // Function call where `async` is an identifier and not a keyword.
-    fn parse_assignment_expr_async(&mut self) -> Result<Expr> {
-        match self.peek() {
-            token_matches!(opt: punct!("=>")) => self.parse_arrow_function_expr(),
-            token_matches!(opt: punct!("(")) => self.parse_cover_call_or_async_arrow_head(),
-            _ if self.peek_is_identifier() => self.parse_async_arrow_function_expr(),
-            _ => self.parse_conditional_expr(),
-        }
-    }
-
     /// Parses the part of `AssignmentExpression` that is an assignment.
     fn parse_assignment(
         &mut self,
@@ -464,6 +453,10 @@ where
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
                 self.parse_import_call_expr()
             }
+            token_matches!(ok: keyword!("async")) if self.peek_matches(&punct!("(")) => {
+                let expr = self.parse_cover_call_or_async_arrow_head()?;
+                self.parse_recursive_call_expression(span_start, expr)
+            }
             _ => {
                 let span_start = self.position();
                 let expr = self.parse_new_or_member_expr()?;
@@ -766,7 +759,9 @@ where
             token_matches!(keyword!("class")) => self
                 .with_context(self.context.with_strict(true))
                 .parse_class_expr()?,
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_function_expr()?
             }
             token_matches!(punct!("/")) => {
diff --git a/parser/src/module.rs b/parser/src/module.rs
index aa4144f..eb1454c 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -28,7 +28,9 @@ where
             | token_matches!(ok: keyword!("const"))
             | token_matches!(ok: keyword!("function"))
             | token_matches!(ok: keyword!("class")) => self.parse_declaration_export(span_start),
-            token_matches!(ok: keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(ok: keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 self.parse_declaration_export(span_start)
             }
             token_matches!(ok: keyword!("default")) => self.parse_default_export(span_start),
@@ -42,9 +44,12 @@ where
             token_matches!(keyword!("class")) | token_matches!(keyword!("function")) => self
                 .with_context(self.context.with_default(true))
                 .parse_declaration_default_export(span_start),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => self
-                .with_context(self.context.with_default(true))
-                .parse_declaration_default_export(span_start),
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
+                self.with_context(self.context.with_default(true))
+                    .parse_declaration_default_export(span_start)
+            }
             _ => {
                 let expr = self
                     .with_context(self.context.with_in(true))
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 70c1ead..d37eddd 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -69,7 +69,9 @@ where
     pub(super) fn parse_declaration(&mut self) -> Result<Option<Stmt>> {
         Ok(match self.current()? {
             token_matches!(keyword!("function")) => Some(self.parse_function_declaration()?),
-            token_matches!(keyword!("async")) if self.peek_matches(&keyword!("function")) => {
+            token_matches!(keyword!("async"))
+                if self.peek_matches(&keyword!("function")) && !self.followed_by_new_line() =>
+            {
                 Some(self.parse_async_function_declaration()?)
             }
             token_matches!(keyword!("class")) => Some(
-- 
2.43.0


From fb65af6f3834ab84e8b7c59ee5de84af5e5ede05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:15 +0000
Subject: [PATCH 13/54] fix: result of super() and import() calls can be
 accessed, and tagged templates with substitutions can follow a call

---
 parser/src/expr.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 72d6d02..22916f1 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -448,10 +448,12 @@ where
         let span_start = self.position();
         let expr = match self.current() {
             token_matches!(ok: keyword!("super")) if self.peek_matches(&punct!("(")) => {
-                self.parse_super_call_expr()
+                let expr = self.parse_super_call_expr()?;
+                self.parse_recursive_call_expression(span_start, expr)
             }
             token_matches!(ok: keyword!("import")) if self.peek_matches(&punct!("(")) => {
-                self.parse_import_call_expr()
+                let expr = self.parse_import_call_expr()?;
+                self.parse_recursive_call_expression(span_start, expr)
             }
             token_matches!(ok: keyword!("async")) if self.peek_matches(&punct!("(")) => {
                 let expr = self.parse_cover_call_or_async_arrow_head()?;
@@ -492,9 +494,7 @@ where
                     let left = MemberObject::Expr(Box::new(expr));
                     self.parse_member_expr_right_side(span_start, left)?
                 }
-                token_matches!(ok: TokenValue::Literal(Literal::Template(_))) => {
-                    self.parse_tagged_template(span_start, expr)?
-                }
+                Ok(token_matches!(@template)) => self.parse_tagged_template(span_start, expr)?,
                 _ => break,
             };
         }
-- 
2.43.0


From 6b10e619c5975f044ecbb015b3dadfcbd356ad6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:18 +0000
Subject: [PATCH 14/54] fix: property name in optional chain can be a reserved
 word

---
 parser/src/member_access.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/member_access.rs b/parser/src/member_access.rs
index 635704f..3257e00 100644
--- a/parser/src/member_access.rs
+++ b/parser/src/member_access.rs
@@ -122,7 +122,7 @@ where
             }
             token_matches!(ok: punct!("?.") | punct!(".")) => {
                 self.consume()?;
-                let identifier = self.parse_identifier()?;
+                let identifier = self.parse_identifier_name()?;
                 Ok(MemberProperty::Ident(identifier))
             }
             _ => unreachable!(),
-- 
2.43.0


From 3eeb6f3886341dd6fd1fb613cd268d87ebaaefd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 15/54] fix: new without arguments is not a valid base of an
 optional chain

---
 ast/src/expr.rs    | 10 ++++------
 parser/src/expr.rs |  4 ++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/ast/src/expr.rs b/ast/src/expr.rs
index b5f80e4..69d23a9 100644
--- a/ast/src/expr.rs
+++ b/ast/src/expr.rs
@@ -38,12 +38,10 @@ fn size_of_expr() {
 }
 
 impl Expr {
-    pub fn is_nested_new(&self) -> bool {
-        if let Expr::New(expr) = &self {
-            matches!(*expr.callee, Expr::New(_))
-        } else {
-            false
-        }
+    /// Returns true for a `new` expression without arguments, that is the `new NewExpression`
+    /// alternative of the `NewExpression` production.
+    pub fn is_new_without_arguments(&self) -> bool {
+        matches!(self, Expr::New(expr) if expr.arguments_span.is_none())
     }
 
     pub fn unwrap_ident_ref(self) -> Ident {
diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 22916f1..d651afa 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -468,9 +468,9 @@ where
         }?;
 
         if self.current_matches(&punct!("?.")) {
-            // The NewExpression production handles nested news and is not included in the
+            // A `new` without arguments is a NewExpression, which is not included in the
             // OptionalExpression production as a base for the chain.
-            if expr.is_nested_new() {
+            if expr.is_new_without_arguments() {
                 return Err(Error::unexpected_token(self.consume()?));
             }
 
-- 
2.43.0


From 7492f384c553f2c619a16f0d4470d4c3828bad9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 16/54] fix: import call and import.meta can start an
 expression statement

---
 parser/src/stmt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index d37eddd..e47a33b 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -78,7 +78,7 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import")) => {
+            token_matches!(keyword!("import")) if !self.is_import_expr() => {
                 if self.source_type == SourceType::Script {
                     return Err(Error::syntax_error(
                         "Cannot use `import` statement outside a module".to_owned(),
@@ -108,6 +108,12 @@ where
         })
     }
 
+    /// Check if current position matches the start of an `ImportCall` or `ImportMeta`, which unlike
+    /// an `ImportDeclaration` are expressions.
+    fn is_import_expr(&self) -> bool {
+        self.peek_matches(&punct!("(")) || self.peek_matches(&punct!("."))
+    }
+
     /// Check if current position matches the start of an expression statement as specified in the
     /// `ExpressionStatement` production.
     fn is_expr_stmt(&self) -> Result<bool> {
-- 
2.43.0


From 5c7a4878e46aed925bb1e28134cc239816578411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:47 +0000
Subject: [PATCH 17/54] fix: module specifier that is not a string literal is a
 syntax error, and reserved word cannot be an import binding

---
 parser/src/module.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index eb1454c..b38002b 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -2,11 +2,11 @@ use crate::error::Result;
 use crate::{Error, Parser, ThenTry};
 use fajt_ast::{
     DeclExport, DeclImport, ExportDecl, ExportDefaultDecl, ExportDefaultExpr, ExportNamed,
-    ExportNamespace, Ident, LitString, NamedExport, NamedImport, Stmt, VariableKind,
+    ExportNamespace, Ident, LitString, Literal, NamedExport, NamedImport, Stmt, VariableKind,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::Token;
+use fajt_lexer::token::{Token, TokenValue};
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
@@ -206,12 +206,11 @@ where
 
     /// Parses the `ModuleSpecifier` production.
     fn parse_module_specifier(&mut self) -> Result<LitString> {
-        let module_name = self
-            .parse_literal()?
-            .unwrap_literal()
-            .literal
-            .unwrap_string();
-        Ok(module_name)
+        let token = self.consume()?;
+        match token.value {
+            TokenValue::Literal(Literal::String(module_name)) => Ok(module_name),
+            _ => Err(Error::unexpected_token(token)),
+        }
     }
 
     /// Parses the `NameSpaceImport` production.
@@ -242,7 +241,12 @@ where
     /// Parses the `ImportSpecifier` production.
     fn parse_import_specifier(&mut self) -> Result<NamedImport> {
         let span_start = self.position();
-        let name = self.parse_identifier_name()?;
+        // Without an alias the name is also the local binding and cannot be a reserved word.
+        let name = if self.peek_matches(&keyword!("as")) {
+            self.parse_identifier_name()?
+        } else {
+            self.parse_identifier()?
+        };
         let alias = self
             .maybe_consume(&keyword!("as"))?
             .then_try(|| self.parse_identifier())?;
-- 
2.43.0


From c62764e8585eb1ceeed89ae1b2fe7b0c161a092e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 18/54] fix: contextual keywords as shorthand property, method
 named async, and super in computed method of object literal

---
 parser/src/literal.rs | 32 +++++++++++++++++++++-----------
 parser/src/method.rs  |  4 +++-
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/parser/src/literal.rs b/parser/src/literal.rs
index e550b49..0292f91 100644
--- a/parser/src/literal.rs
+++ b/parser/src/literal.rs
@@ -1,5 +1,5 @@
 use crate::error::Result;
-use crate::{Error, Parser};
+use crate::{Context, Error, Parser};
 use fajt_ast::{
     ArrayElement, Expr, ExprLiteral, LitArray, LitObject, LitTemplate, Literal, MethodKind,
     NamedProperty, PropertyDefinition, PropertyName, TemplatePart,
@@ -220,12 +220,7 @@ where
             token_matches!(punct!("[")) => self.parse_property_definition_with_computed_name(),
             _ if self.is_object_method_definition() => {
                 let method = self
-                    .with_context(
-                        self.context
-                            .with_in_method(true)
-                            .with_static_method_allowed(false)
-                            .with_super_call_allowed(false),
-                    )
+                    .with_context(self.object_method_context())
                     .parse_method_definition()?;
                 Ok(PropertyDefinition::Method(method))
             }
@@ -243,11 +238,20 @@ where
         if self.current_matches(&punct!(":")) {
             self.parse_named_property_definition(span_start, name)
         } else {
-            self.parse_method(span_start, false, name, MethodKind::Method)
+            self.with_context(self.object_method_context())
+                .parse_method(span_start, false, name, MethodKind::Method)
                 .map(PropertyDefinition::Method)
         }
     }
 
+    /// Returns the context of a method in an object literal.
+    fn object_method_context(&self) -> Context {
+        self.context
+            .with_in_method(true)
+            .with_static_method_allowed(false)
+            .with_super_call_allowed(false)
+    }
+
     fn parse_named_property_definition(
         &mut self,
         span_start: usize,
@@ -267,9 +271,15 @@ where
     pub fn is_object_method_definition(&self) -> bool {
         match self.current() {
             token_matches!(ok: punct!("*") | punct!("[")) => true,
-            token_matches!(ok: keyword!("static")) => true,
-            token_matches!(ok: keyword!("async")) if !self.peek_matches(&punct!(":")) => true,
-            token_matches!(ok: keyword!("get") | keyword!("set")) => true,
+            token_matches!(
+                ok: keyword!("static") | keyword!("async") | keyword!("get") | keyword!("set")
+            ) => {
+                // Otherwise the keyword is itself a shorthand property name.
+                !matches!(
+                    self.peek(),
+                    token_matches!(opt: punct!(",") | punct!("}") | punct!("="))
+                )
+            }
             _ => self.peek_matches(&punct!("(")),
         }
     }
diff --git a/parser/src/method.rs b/parser/src/method.rs
index cfce334..6f4b1b9 100644
--- a/parser/src/method.rs
+++ b/parser/src/method.rs
@@ -27,7 +27,9 @@ where
             token_matches!(keyword!("set")) if !self.peek_matches(&punct!("(")) => {
                 self.parse_getter_or_setter(is_static, MethodKind::Set)
             }
-            token_matches!(keyword!("async")) if !self.followed_by_new_line() => {
+            token_matches!(keyword!("async"))
+                if !self.peek_matches(&punct!("(")) && !self.followed_by_new_line() =>
+            {
                 self.parse_async_method(is_static)
             }
             _ => {
-- 
2.43.0


From 359269dccd6cf5e11aa95bbf3b8ff5a93e5fbe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 19/54] fix: parameters of an arrow function can have a
 trailing comma

---
 parser/src/cover.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/cover.rs b/parser/src/cover.rs
index 5109628..f809a3d 100644
--- a/parser/src/cover.rs
+++ b/parser/src/cover.rs
@@ -40,6 +40,13 @@ where
                         self.parse_arrow_function_expr()?,
                     ))
                 }
+                // Only the parameters of an arrow function can have a trailing comma.
+                UnexpectedToken(punct!(")"), _) => {
+                    self.reader.rewind_to(&start_token)?;
+                    Err(self
+                        .parse_arrow_function_expr()
+                        .map_or(error, Error::arrow_function_not_allowed))
+                }
                 _ => Err(error),
             },
         }
-- 
2.43.0


From d843a3ec957f42002d813c8a5ecb68e695946c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 20/54] fix: only the exported declaration itself is anonymous
 in export default, including a class with heritage

---
 parser/src/class.rs    | 4 +++-
 parser/src/function.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/src/class.rs b/parser/src/class.rs
index 7ba3f44..5e7c77e 100644
--- a/parser/src/class.rs
+++ b/parser/src/class.rs
@@ -31,7 +31,9 @@ where
 
     /// Parses optional class identifier, returns dummy if identifier is optional and missing.
     fn parse_optional_class_identifier(&mut self) -> Result<Ident> {
-        if self.context.is_default && self.current_matches(&punct!("{")) {
+        if self.context.is_default
+            && (self.current_matches(&punct!("{")) || self.current_matches(&keyword!("extends")))
+        {
             let current = self.current().unwrap();
             Ok(Ident::dummy(current.span.start))
         } else {
diff --git a/parser/src/function.rs b/parser/src/function.rs
index 88d1d77..b276f0a 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -272,7 +272,12 @@ where
         let is_strict = self.context.is_strict || directives.as_slice().contains_strict();
 
         let statements = self
-            .with_context(self.context.with_strict(is_strict).with_return(true))
+            .with_context(
+                self.context
+                    .with_strict(is_strict)
+                    .with_return(true)
+                    .with_default(false),
+            )
             .parse_function_body_stmt_list()?;
 
         let span = self.span_from(span_start);
-- 
2.43.0


From 2ea69a6e2d452b50dac3cbdd9eb173c3bc3f8e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:08 +0000
Subject: [PATCH 21/54] fix: arrow function in strict mode code has strict mode
 body

---
 parser/src/function.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index b276f0a..e9885f9 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -47,6 +47,7 @@ where
                 self.context
                     .reset_parameters()
                     .with_in(self.context.is_in)
+                    .with_strict(self.context.is_strict)
                     .with_await(asynchronous),
             )
             .parse_concise_body()?;
-- 
2.43.0


From 71beb393f2e31b5814734cd59e6fa947573a465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:37 +0000
Subject: [PATCH 22/54] fix: elements of an array assignment pattern must be
 separated by commas

---
 parser/src/assignment_pattern.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index be85987..c7d7e27 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -60,6 +60,11 @@ where
                 }
                 _ => {
                     elements.push(Some(self.parse_assignment_element()?));
+
+                    if !self.current_matches(&punct!(",")) && !self.current_matches(&punct!("]")) {
+                        let token = self.consume()?;
+                        return Err(Error::expected_other_token(token, &punct!(",")));
+                    }
                 }
             }
         }
-- 
2.43.0


From 6be83787f9d9af0d7315d8371233ef7d7e4cf15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:41 +0000
Subject: [PATCH 23/54] fix: member expression that starts with an array or
 object literal is a valid destructuring target

---
 parser/src/assignment_pattern.rs | 56 ++++++++++++++++++++++----------
 parser/src/iteration.rs          | 12 ++++---
 2 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/parser/src/assignment_pattern.rs b/parser/src/assignment_pattern.rs
index c7d7e27..3fd0652 100644
--- a/parser/src/assignment_pattern.rs
+++ b/parser/src/assignment_pattern.rs
@@ -3,11 +3,11 @@ use crate::error::Result;
 use crate::static_semantics::ExprSemantics;
 use crate::Parser;
 use crate::ThenTry;
-use fajt_ast::PatternOrExpr;
 use fajt_ast::{
     ArrayAssignmentPattern, AssignmentElement, AssignmentPattern, AssignmentProp,
     NamedAssignmentProp, ObjectAssignmentPattern, SingleNameAssignmentProp, Spanned,
 };
+use fajt_ast::{Expr, PatternOrExpr};
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
 use fajt_lexer::token::Token;
@@ -97,24 +97,46 @@ where
         })
     }
 
-    fn parse_destructuring_assignment_target(&mut self) -> Result<PatternOrExpr> {
-        Ok(match self.current()? {
-            token_matches!(punct!("{") | punct!("[")) => {
-                PatternOrExpr::AssignmentPattern(self.parse_assignment_pattern()?)
-            }
-            _ => {
-                let expr = self.parse_left_hand_side_expr()?;
+    /// Parses the `DestructuringAssignmentTarget` production. A target that starts with `{` or `[`
+    /// is a pattern, unless it is the literal at the start of a member expression.
+    pub(super) fn parse_destructuring_assignment_target(&mut self) -> Result<PatternOrExpr> {
+        if !token_matches!(self.current()?, punct!("{") | punct!("[")) {
+            return Ok(PatternOrExpr::Expr(self.parse_simple_assignment_target()?));
+        }
 
-                if !expr.is_assignment_target_type_simple(&self.context)? {
-                    return Err(Error::syntax_error(
-                        "Invalid destructuring assignment target".to_owned(),
-                        expr.span().clone(),
-                    ));
-                }
+        let start_token = self.current()?.clone();
+        let pattern = self.parse_assignment_pattern();
+        if pattern.is_ok() && !self.is_member_access() {
+            return Ok(PatternOrExpr::AssignmentPattern(pattern?));
+        }
 
-                PatternOrExpr::Expr(expr)
-            }
-        })
+        self.reader.rewind_to(&start_token)?;
+        match (self.parse_simple_assignment_target(), pattern) {
+            (Ok(expr), _) => Ok(PatternOrExpr::Expr(expr)),
+            (_, Err(error)) | (Err(error), _) => Err(error),
+        }
+    }
+
+    /// Returns `true` if current token continues a member expression.
+    fn is_member_access(&self) -> bool {
+        matches!(
+            self.current(),
+            token_matches!(ok: punct!(".") | punct!("[") | punct!("(") | punct!("?."))
+                | Ok(token_matches!(@template))
+        )
+    }
+
+    fn parse_simple_assignment_target(&mut self) -> Result<Expr> {
+        let expr = self.parse_left_hand_side_expr()?;
+
+        if !expr.is_assignment_target_type_simple(&self.context)? {
+            return Err(Error::syntax_error(
+                "Invalid destructuring assignment target".to_owned(),
+                expr.span().clone(),
+            ));
+        }
+
+        Ok(expr)
     }
 
     /// Parses the `ObjectAssignmentPattern` production.
diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index 3c9ed3e..afe611d 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -2,8 +2,8 @@ use crate::error::Result;
 use crate::static_semantics::ExprSemantics;
 use crate::{Error, Parser, ThenTry};
 use fajt_ast::{
-    ForBinding, ForDeclaration, ForInit, Stmt, StmtDoWhile, StmtFor, StmtForIn, StmtForOf,
-    StmtVariable, StmtWhile, VariableKind,
+    ForBinding, ForDeclaration, ForInit, PatternOrExpr, Stmt, StmtDoWhile, StmtFor, StmtForIn,
+    StmtForOf, StmtVariable, StmtWhile, VariableKind,
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
@@ -205,8 +205,12 @@ where
 
         match self.current()? {
             token_matches!(punct!("[")) | token_matches!(punct!("{")) => {
-                let assignment_pattern = self.parse_assignment_pattern()?;
-                Ok(ForDeclaration::AssignmentPattern(assignment_pattern))
+                Ok(match self.parse_destructuring_assignment_target()? {
+                    PatternOrExpr::AssignmentPattern(pattern) => {
+                        ForDeclaration::AssignmentPattern(pattern)
+                    }
+                    PatternOrExpr::Expr(expr) => ForDeclaration::Expr(Box::new(expr)),
+                })
             }
             _ => {
                 let expr = self.parse_left_hand_side_expr()?;
-- 
2.43.0


From 4bd82e10ba59ea9022b5b2574e8c34f53fe2634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 24/54] fix: for of iterates an assignment expression and
 cannot have a left side starting with let

---
 parser/src/iteration.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/parser/src/iteration.rs b/parser/src/iteration.rs
index afe611d..118c817 100644
--- a/parser/src/iteration.rs
+++ b/parser/src/iteration.rs
@@ -126,10 +126,18 @@ where
     /// Parses the `ForInOfStatement` production.
     /// Expects `for (` to already have been consumed.
     fn parse_for_in_of(&mut self, span_start: usize, asynchronous: bool) -> Result<Stmt> {
+        let start_token = self.current()?.clone();
         let declaration = self.parse_for_declaration()?;
 
         match self.current()? {
             token_matches!(keyword!("of")) => {
+                // The left side of `of` may not be an expression that starts with `let`.
+                if start_token.value == keyword!("let")
+                    && matches!(declaration, ForDeclaration::Expr(_))
+                {
+                    return Err(Error::unexpected_token(start_token));
+                }
+
                 self.parse_for_of(span_start, declaration, asynchronous)
             }
             token_matches!(keyword!("in")) => {
@@ -173,7 +181,9 @@ where
     ) -> Result<Stmt> {
         self.consume_assert(&keyword!("of"))?;
 
-        let right = self.with_context(self.context.with_in(true)).parse_expr()?;
+        let right = self
+            .with_context(self.context.with_in(true))
+            .parse_assignment_expr()?;
 
         self.consume_assert(&punct!(")"))?;
 
-- 
2.43.0


From 74b5ea4ee016131a17c82bae3c6a0d20d2a2f306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:47 +0000
Subject: [PATCH 25/54] fix: yield without argument can be followed by a comma
 or a colon

---
 parser/src/expr.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index d651afa..48c8959 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -822,5 +822,7 @@ where
         self.stmt_ended()
             || self.current_matches(&punct!(")"))
             || self.current_matches(&punct!("]"))
+            || self.current_matches(&punct!(","))
+            || self.current_matches(&punct!(":"))
     }
 }
-- 
2.43.0


From 337af2f7fd25135462125a3030ef07cd76f92953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:05 +0000
Subject: [PATCH 26/54] fix: module code is strict mode code

---
 parser/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index b646ce8..17f1547 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -194,7 +194,8 @@ impl Parse for Program {
         let span_start = parser.position();
 
         let directives = parser.parse_directive_prologue()?;
-        let strict_mode = directives.as_slice().contains_strict();
+        let strict_mode =
+            parser.source_type == SourceType::Module || directives.as_slice().contains_strict();
 
         let body = if strict_mode {
             parser
-- 
2.43.0


From 39f0ae65415cd2e9f2af0ca5632d132d6a50ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:08 +0000
Subject: [PATCH 27/54] fix: with statement is not allowed in strict mode

---
 parser/src/stmt.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index e47a33b..c37a519 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -306,7 +306,14 @@ where
     fn parse_with_stmt(&mut self) -> Result<Stmt> {
         let span_start = self.position();
 
-        self.consume_assert(&keyword!("with"))?;
+        let with = self.consume_assert(&keyword!("with"))?;
+        if self.context.is_strict {
+            return Err(Error::syntax_error(
+                "`with` statement not allowed in strict mode".to_owned(),
+                with.span,
+            ));
+        }
+
         self.consume_assert(&punct!("("))?;
         let object = self.with_context(self.context.with_in(true)).parse_expr()?;
         self.consume_assert(&punct!(")"))?;
-- 
2.43.0


From c49a767373261033006a009595d554c1dbd9a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:12 +0000
Subject: [PATCH 28/54] fix: switch statement can only have one default clause

---
 parser/src/stmt.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index c37a519..3963b28 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -413,7 +413,15 @@ where
                 break;
             }
 
-            cases.push(self.parse_case_clause()?);
+            let case = self.parse_case_clause()?;
+            if case.test.is_none() && cases.iter().any(|case: &SwitchCase| case.test.is_none()) {
+                return Err(Error::syntax_error(
+                    "Switch statement can only have one default clause".to_owned(),
+                    case.span,
+                ));
+            }
+
+            cases.push(case);
         }
 
         self.consume_assert(&punct!("}"))?;
-- 
2.43.0


From fc0f2814739838df5c5c719755f554b2cf55afa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:28 +0000
Subject: [PATCH 29/54] fix: import and export declarations are only allowed at
 the top level of a module

---
 parser/src/lib.rs  |  2 +-
 parser/src/stmt.rs | 50 +++++++++++++++++++++++++++-------------------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index 17f1547..ff1e25a 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -181,7 +181,7 @@ impl Parse for Stmt {
         I: PeekRead<Token, Error = fajt_lexer::error::Error>,
         I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
     {
-        parser.parse_declaration_or_statement()
+        parser.parse_module_item()
     }
 }
 
diff --git a/parser/src/stmt.rs b/parser/src/stmt.rs
index 3963b28..a2b2e71 100644
--- a/parser/src/stmt.rs
+++ b/parser/src/stmt.rs
@@ -24,12 +24,40 @@ where
                 break;
             }
 
-            stmts.push(self.parse_declaration_or_statement()?);
+            stmts.push(self.parse_module_item()?);
         }
 
         Ok(stmts)
     }
 
+    /// Parses the `ModuleItem` production. Import and export declarations are only allowed here, at
+    /// the top level, and not everywhere a declaration is.
+    pub(super) fn parse_module_item(&mut self) -> Result<Stmt> {
+        match self.current()? {
+            token_matches!(keyword!("import")) if !self.is_import_expr() => {
+                if self.source_type == SourceType::Script {
+                    return Err(Error::syntax_error(
+                        "Cannot use `import` statement outside a module".to_owned(),
+                        self.current()?.span.clone(),
+                    ));
+                }
+
+                self.parse_import_declaration()
+            }
+            token_matches!(keyword!("export")) => {
+                if self.source_type == SourceType::Script {
+                    return Err(Error::syntax_error(
+                        "Cannot use `export` statement outside a module".to_owned(),
+                        self.current()?.span.clone(),
+                    ));
+                }
+
+                self.parse_export_declaration()
+            }
+            _ => self.parse_declaration_or_statement(),
+        }
+    }
+
     pub(super) fn parse_declaration_or_statement(&mut self) -> Result<Stmt> {
         let decl = self.parse_declaration()?;
         if let Some(decl) = decl {
@@ -78,26 +106,6 @@ where
                 self.with_context(self.context.with_strict(true))
                     .parse_class_decl()?,
             ),
-            token_matches!(keyword!("import")) if !self.is_import_expr() => {
-                if self.source_type == SourceType::Script {
-                    return Err(Error::syntax_error(
-                        "Cannot use `import` statement outside a module".to_owned(),
-                        self.current()?.span.clone(),
-                    ));
-                }
-
-                Some(self.parse_import_declaration()?)
-            }
-            token_matches!(keyword!("export")) => {
-                if self.source_type == SourceType::Script {
-                    return Err(Error::syntax_error(
-                        "Cannot use `export` statement outside a module".to_owned(),
-                        self.current()?.span.clone(),
-                    ));
-                }
-
-                Some(self.parse_export_declaration()?)
-            }
             token_matches!(keyword!("const")) => {
                 Some(self.parse_variable_stmt(VariableKind::Const)?)
             }
-- 
2.43.0


From f2f3c65498df085ed8582800ac9dbe77ba539900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:43 +0000
Subject: [PATCH 30/54] fix: function with "use strict" directive cannot have
 non-simple parameters

---
 parser/src/function.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index e9885f9..5fc34a8 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -1,4 +1,5 @@
 use crate::error::Result;
+use crate::static_semantics::FormalParametersSemantics;
 use crate::{DirectivePrologueSemantics, Error, Parser, ThenTry};
 use fajt_ast::{
     ArrowFunctionBody, BindingElement, Body, DeclFunction, Expr, ExprArrowFunction, ExprFunction,
@@ -52,6 +53,10 @@ where
             )
             .parse_concise_body()?;
 
+        if let ArrowFunctionBody::Body(body) = &body {
+            parameters.early_errors_forbidden_use_strict(&body.directives)?;
+        }
+
         let span = self.span_from(span_start);
         Ok(ExprArrowFunction {
             span,
@@ -144,6 +149,7 @@ where
         let identifier = self.is_identifier().then_try(|| self.parse_identifier())?;
         let parameters = self.parse_formal_parameters()?;
         let body = self.parse_function_body()?;
+        parameters.early_errors_forbidden_use_strict(&body.directives)?;
 
         let span = self.span_from(span_start);
         Ok(ExprFunction {
@@ -205,6 +211,7 @@ where
     ) -> Result<Stmt> {
         let parameters = self.parse_formal_parameters()?;
         let body = self.parse_function_body()?;
+        parameters.early_errors_forbidden_use_strict(&body.directives)?;
 
         let span = self.span_from(span_start);
         Ok(DeclFunction {
-- 
2.43.0


From 93bb1089bc032579f0ecd729649e20d06f22d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:36 +0000
Subject: [PATCH 31/54] fix: remove imports left unused by earlier fixes

---
 parser/src/expr.rs                 | 2 +-
 parser/src/static_semantics/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/expr.rs b/parser/src/expr.rs
index 48c8959..3cf72bc 100644
--- a/parser/src/expr.rs
+++ b/parser/src/expr.rs
@@ -14,7 +14,7 @@ use fajt_ast::{
 };
 use fajt_common::io::{PeekRead, ReReadWithState};
 use fajt_lexer::punct;
-use fajt_lexer::token::{Token, TokenValue};
+use fajt_lexer::token::Token;
 use fajt_lexer::token_matches;
 use fajt_lexer::{keyword, LexerState};
 
diff --git a/parser/src/static_semantics/mod.rs b/parser/src/static_semantics/mod.rs
index ecb87f9..c9e3c3a 100644
--- a/parser/src/static_semantics/mod.rs
+++ b/parser/src/static_semantics/mod.rs
@@ -3,7 +3,7 @@ mod macros;
 
 use crate::error::Result;
 use crate::{Context, Error};
-use fajt_ast::{logical_op, LogicalOperator};
+use fajt_ast::logical_op;
 use fajt_ast::{BindingPattern, Expr, FormalParameters, LitString, Spanned};
 
 impl_trait!(
-- 
2.43.0


From eac8ac0ce201cb099ee387fd32f12a16aac0de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:10 +0000
Subject: [PATCH 32/54] fix: await cannot be the name of a parameter of an
 async arrow function

---
 parser/src/function.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/function.rs b/parser/src/function.rs
index 5fc34a8..a339658 100644
--- a/parser/src/function.rs
+++ b/parser/src/function.rs
@@ -36,7 +36,12 @@ where
         span_start: usize,
         asynchronous: bool,
     ) -> Result<Expr> {
-        let (binding_parameter, parameters) = self.parse_arrow_function_parameters()?;
+        let (binding_parameter, parameters) = self
+            .with_context(
+                self.context
+                    .with_await(self.context.is_await || asynchronous),
+            )
+            .parse_arrow_function_parameters()?;
 
         let arrow = self.consume_assert(&punct!("=>"))?;
         if arrow.first_on_line {
-- 
2.43.0


From 65eba1b9df763034d8c09a1dd4961711234ab143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:15 +0000
Subject: [PATCH 33/54] fix: reporting an error that ends inside a multi-byte
 character panics

---
 parser/src/error/emitter.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 3e415e5..03ef557 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -19,7 +19,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     pub fn emit_error(&mut self, error: &Error) -> std::io::Result<()> {
-        let span = &error.span;
+        let span = &self.get_marked_span(error);
         let line_span = self.get_line_boundaries(span);
         let col_number = span.start - line_span.start + 1;
         let line_number = self.get_line_number(span);
@@ -54,7 +54,9 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         let line_number_str = line_number.to_string();
         let padding = line_number_str.len() + 1;
 
-        let err_span = error.span.translate(-(line_span.start as isize));
+        let err_span = self
+            .get_marked_span(error)
+            .translate(-(line_span.start as isize));
         let err_token_length = err_span.end - err_span.start;
 
         writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
@@ -83,6 +85,16 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         Ok(())
     }
 
+    /// The span of the error, extended to not end inside a multi-byte character.
+    fn get_marked_span(&self, error: &Error) -> Span {
+        let mut end = error.span.end;
+        while !self.source.is_char_boundary(end) {
+            end += 1;
+        }
+
+        Span::new(error.span.start, end)
+    }
+
     fn get_line_number(&self, span: &Span) -> usize {
         self.source[..span.end].matches('\n').count() + 1
     }
@@ -107,7 +119,8 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             }
             ErrorKind::UnexpectedToken(_, None) => "Unexpected token".to_string(),
             ErrorKind::UnexpectedToken(_, Some(expected)) => {
-                let token_value = &self.source[error.span.start..error.span.end];
+                let span = self.get_marked_span(error);
+                let token_value = &self.source[span.start..span.end];
                 format!(
                     "Unexpected token, found `{token_value}`, expected `{}`",
                     expected_token_to_string(expected).unwrap_or_default(),
-- 
2.43.0


From 1c7191bacb6291664307e17684104e995940ccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:32 +0000
Subject: [PATCH 34/54] fix: error in text spanning several lines is reported
 at its last line

---
 parser/src/error/emitter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index 03ef557..b61e0ac 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -57,7 +57,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         let err_span = self
             .get_marked_span(error)
             .translate(-(line_span.start as isize));
-        let err_token_length = err_span.end - err_span.start;
+        let err_token_length = err_span.end.min(line_span.end - line_span.start) - err_span.start;
 
         writeln!(self.out, "{:<pad$}|", " ", pad = padding)?;
 
@@ -96,7 +96,7 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
     }
 
     fn get_line_number(&self, span: &Span) -> usize {
-        self.source[..span.end].matches('\n').count() + 1
+        self.source[..span.start].matches('\n').count() + 1
     }
 
     fn get_line_boundaries(&self, span: &Span) -> Span {
@@ -104,9 +104,9 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
             .rfind('\n')
             .map(|pos| pos + 1)
             .unwrap_or(0);
-        let end = self.source[span.end..]
+        let end = self.source[span.start..]
             .find('\n')
-            .map(|pos| pos + span.end)
+            .map(|pos| pos + span.start)
             .unwrap_or(self.source.len());
 
         Span::new(start, end)
-- 
2.43.0


From 5e3f865483cc1638730b44e0431d1f26cd36ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 35/54] fix: reporting an error beyond column 65535 panics

---
 parser/src/error/emitter.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/parser/src/error/emitter.rs b/parser/src/error/emitter.rs
index b61e0ac..70b0df5 100644
--- a/parser/src/error/emitter.rs
+++ b/parser/src/error/emitter.rs
@@ -72,14 +72,12 @@ impl<'a, 'b, 'c, W: Write> ErrorEmitter<'a, 'b, 'c, W> {
         )?;
         writeln!(
             self.out,
-            "{:<pad$}| {:<err_offset$}{:^<err_mark$} {}",
+            "{:<pad$}| {}{} {}",
             "",
-            "",
-            "^",
+            " ".repeat(err_span.start + tab_indents * 3),
+            "^".repeat(err_token_length.max(1)),
             label,
-            pad = padding,
-            err_offset = err_span.start + tab_indents * 3,
-            err_mark = err_token_length
+            pad = padding
         )?;
 
         Ok(())
-- 
2.43.0


From 8f8af87a2f50e7dc51add6fc8da8ba834d91293a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 36/54] hook: span of a parser error, under cfg(fajt_vp)

---
 parser/src/error/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/parser/src/error/mod.rs b/parser/src/error/mod.rs
index 9efbf36..e256fcd 100644
--- a/parser/src/error/mod.rs
+++ b/parser/src/error/mod.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 use crate::error::ErrorKind::{
     ArrowFunctionNotAllowed, EndOfStream, ExpectedIdentifier, ForbiddenIdentifier,
     InitializedNameNotAllowed, SyntaxError, UnexpectedIdent, UnexpectedToken,
@@ -194,3 +196,11 @@ fn expected_token_to_string(token: &TokenValue) -> Option<&str> {
         _ => return None,
     })
 }
+
+/// Access for the verification harness.
+#[cfg(fajt_vp)]
+impl Error {
+    pub fn vp_span(&self) -> &Span {
+        &self.span
+    }
+}
-- 
2.43.0


From a50d4a4ad0e0b43b6c573d778161c81d7b62a94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:23 +0000
Subject: [PATCH 37/54] fix: span of the error for a missing declaration after
 `export` ends before it starts

---
 parser/src/module.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/module.rs b/parser/src/module.rs
index b38002b..d0017e6 100644
--- a/parser/src/module.rs
+++ b/parser/src/module.rs
@@ -103,7 +103,7 @@ where
         if let Some(decl) = decl {
             Ok(decl)
         } else {
-            let span = self.span_from(self.position());
+            let span = self.current()?.span.clone();
             Err(Error::syntax_error("Expected statement".to_owned(), span))
         }
     }
-- 
2.43.0


From 64a993799053c821d6dc26c9cdbdd4b74d3fbba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 38/54] fix: traversal visits the condition of a conditional
 expression twice instead of its alternate

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index f7b9383..b6743ac 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -290,7 +290,7 @@ generate_fold_and_visit! {
         ExprConditional: (enter: enter_conditional_expr, exit: exit_conditional_expr) {
             condition
             consequent
-            condition
+            alternate
         }
 
         ExprUpdate: (enter: enter_update_expr, exit: exit_update_expr) {
-- 
2.43.0


From ca7d4699b36dc207720e3b7b65c06279827cf758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 39/54] fix: traversal visits named imports twice instead of
 the namespace binding

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index b6743ac..24cb288 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -219,7 +219,7 @@ generate_fold_and_visit! {
 
         DeclImport: (enter: enter_import, exit: exit_import) {
             default_binding
-            named_imports
+            namespace_binding
             named_imports
             from
         }
-- 
2.43.0


From d842d32c02a0c05fe438f987a9d7ea046b2ff845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:35 +0000
Subject: [PATCH 40/54] fix: traversal skips the pattern declared in the head
 of a for-in or for-of statement

---
 ast/src/traverse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 24cb288..0364702 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -534,6 +534,8 @@ generate_fold_and_visit! {
             statements
         }
 
-        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) { }
+        ForBinding: (enter: enter_for_binding, exit: exit_for_binding) {
+            binding
+        }
     }
 }
-- 
2.43.0


From 8893d37526c80728929f079ebd1eb2832d4cc5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:40 +0000
Subject: [PATCH 41/54] fix: traversal skips assignment patterns

---
 ast/src/traverse/mod.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index 0364702..e9b0833 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -198,7 +198,13 @@ generate_fold_and_visit! {
         }
 
         AssignmentPattern: (enter: enter_assignment_pattern, exit: exit_assignment_pattern) {
-            // TODO
+            Array
+            Object
+        }
+
+        AssignmentProp: (enter: enter_assignment_prop, exit: exit_assignment_prop) {
+            Single
+            Named
         }
     }
 
@@ -459,6 +465,32 @@ generate_fold_and_visit! {
             rest
         }
 
+        ArrayAssignmentPattern: (enter: enter_array_assignment_pattern, exit: exit_array_assignment_pattern) {
+            elements
+            rest
+        }
+
+        AssignmentElement: (enter: enter_assignment_element, exit: exit_assignment_element) {
+            target
+            initializer
+        }
+
+        ObjectAssignmentPattern: (enter: enter_object_assignment_pattern, exit: exit_object_assignment_pattern) {
+            props
+            rest
+        }
+
+        SingleNameAssignmentProp: (enter: enter_single_name_assignment_prop, exit: exit_single_name_assignment_prop) {
+            ident
+            initializer
+        }
+
+        NamedAssignmentProp: (enter: enter_named_assignment_prop, exit: exit_named_assignment_prop) {
+            name
+            value
+            initializer
+        }
+
         SingleNameBinding: (enter: enter_single_name_binding, exit: exit_single_name_binding) {
             ident
             initializer
-- 
2.43.0


From fed8fb40cbd056105b3522fc13aa53ef504c7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:46 +0000
Subject: [PATCH 42/54] fix: traversal visits the names of an aliased export in
 reverse order

---
 ast/src/traverse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/src/traverse/mod.rs b/ast/src/traverse/mod.rs
index e9b0833..d00bbfd 100644
--- a/ast/src/traverse/mod.rs
+++ b/ast/src/traverse/mod.rs
@@ -550,8 +550,8 @@ generate_fold_and_visit! {
         }
 
         NamedExport: (enter: enter_named_export, exit: exit_named_export) {
-            name
             alias_of
+            name
         }
 
         NamedImport: (enter: enter_named_import, exit: exit_named_import) {
-- 
2.43.0


From de8bf97e20d4622658e04bff68388ef020ed2ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 43/54] fix: deserializing a span that is not made of numbers
 panics

---
 ast/src/span.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/ast/src/span.rs b/ast/src/span.rs
index 73968e3..f798f8f 100644
--- a/ast/src/span.rs
+++ b/ast/src/span.rs
@@ -56,12 +56,9 @@ impl<'de> Deserialize<'de> for Span {
             where
                 E: serde::de::Error,
             {
-                let mut parts = str.split(':');
-                if let (Some(start), Some(end)) = (parts.next(), parts.next()) {
-                    Ok(Span {
-                        start: start.parse().unwrap(),
-                        end: end.parse().unwrap(),
-                    })
+                let mut parts = str.split(':').map(|part| part.parse().ok());
+                if let (Some(Some(start)), Some(Some(end))) = (parts.next(), parts.next()) {
+                    Ok(Span { start, end })
                 } else {
                     Err(serde::de::Error::custom(format!(
                         "{str} is not a valid span."
-- 
2.43.0


From 4bd478c487ae1fb3befa1c3f2ff9f7e81dc746e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:34 +0000
Subject: [PATCH 44/54] fix: generated code merges words containing `$`, `_` or
 combining characters with the word before

---
 codegen/src/lib.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 0da100c..08f260c 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -319,6 +319,12 @@ impl CodeGenerator<'_> {
         self.data.push_str(str);
     }
 
+    /// Add string to output, without separation from what precedes it.
+    fn raw(&mut self, str: &str) {
+        self.indent();
+        self.data.push_str(str);
+    }
+
     /// Adds formatting space.
     fn space(&mut self) {
         if !self.ctx.minified {
@@ -381,16 +387,17 @@ impl CodeGenerator<'_> {
 
     /// Check if a space must be added before adding str to avoid merging keywords or identifiers.
     fn must_add_space_before(&self, str: &str) -> bool {
-        let last_is_alphanumeric = self.last().map(char::is_alphanumeric).unwrap_or(false);
-        let first_is_alphanumeric = str
-            .chars()
-            .next()
-            .map(char::is_alphanumeric)
-            .unwrap_or(false);
-        last_is_alphanumeric && first_is_alphanumeric
+        let last_is_word = self.last().map(is_word_char).unwrap_or(false);
+        let first_is_word = str.chars().next().map(is_word_char).unwrap_or(false);
+        last_is_word && first_is_word
     }
 }
 
+/// Characters that merge with the characters of a keyword, an identifier or a number next to them.
+fn is_word_char(char: char) -> bool {
+    char.is_ascii_alphanumeric() || char == '$' || char == '_' || !char.is_ascii()
+}
+
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
         if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
@@ -1204,10 +1211,10 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_template_part(&mut self, node: &mut TemplatePart) -> bool {
         match node {
             TemplatePart::String(str) => {
-                self.string(str);
+                self.raw(str);
             }
             TemplatePart::Expr(expr) => {
-                self.string("${");
+                self.raw("${");
                 expr.traverse(self);
                 self.char('}');
             }
-- 
2.43.0


From fa4aff2ecd172b2ae85aecfcf7a6ca549944151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 45/54] fix: generated code merges adjacent operators, as in `a
 + +b`, `a / /b/` and `a < !--b`

---
 codegen/src/lib.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 08f260c..74942e2 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -385,11 +385,22 @@ impl CodeGenerator<'_> {
         self.data.push_str(&" ".repeat(self.ctx.indentation()));
     }
 
-    /// Check if a space must be added before adding str to avoid merging keywords or identifiers.
+    /// Check if a space must be added before adding str to avoid merging keywords, identifiers or
+    /// operators.
     fn must_add_space_before(&self, str: &str) -> bool {
         let last_is_word = self.last().map(is_word_char).unwrap_or(false);
         let first_is_word = str.chars().next().map(is_word_char).unwrap_or(false);
-        last_is_word && first_is_word
+        if last_is_word && first_is_word {
+            return true;
+        }
+
+        match str.chars().next() {
+            // `a + +b`, `a - --b` and `a / /b/`
+            Some(first @ ('+' | '-' | '/')) if self.last() == Some(first) => true,
+            // `a < !--b`, would otherwise be a HTML-like comment.
+            Some('-') => str == "--" && self.data.ends_with("<!"),
+            _ => false,
+        }
     }
 }
 
-- 
2.43.0


From afe87bc447e863d44aa2d266e501782d9708fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:35 +0000
Subject: [PATCH 46/54] fix: generated code merges numbers and regular
 expressions with what follows, as in `1 .a` and `/a/ in b`

---
 codegen/src/lib.rs | 47 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 74942e2..60b9088 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -46,6 +46,7 @@ impl Default for GeneratorContext {
 struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
+    last_literal_end: Cell<usize>,
 }
 
 impl Index {
@@ -53,6 +54,7 @@ impl Index {
         Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
+            last_literal_end: Cell::new(0),
         }
     }
 
@@ -71,6 +73,14 @@ impl Index {
     fn set_block_start(&self, pos: usize) {
         self.last_block_start.replace(pos);
     }
+
+    fn last_literal_end(&self) -> usize {
+        self.last_literal_end.get()
+    }
+
+    fn set_literal_end(&self, pos: usize) {
+        self.last_literal_end.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -354,6 +364,11 @@ impl CodeGenerator<'_> {
         self.char('}');
     }
 
+    /// At the end of a literal which a word would be part of, i.e. `1.` or `/a/`.
+    fn at_literal_end(&self) -> bool {
+        self.pos() != 0 && self.index.last_literal_end() == self.pos()
+    }
+
     fn at_block_start(&self) -> bool {
         self.index.last_block_start() == self.pos()
     }
@@ -390,7 +405,7 @@ impl CodeGenerator<'_> {
     fn must_add_space_before(&self, str: &str) -> bool {
         let last_is_word = self.last().map(is_word_char).unwrap_or(false);
         let first_is_word = str.chars().next().map(is_word_char).unwrap_or(false);
-        if last_is_word && first_is_word {
+        if first_is_word && (last_is_word || self.at_literal_end()) {
             return true;
         }
 
@@ -409,6 +424,16 @@ fn is_word_char(char: char) -> bool {
     char.is_ascii_alphanumeric() || char == '$' || char == '_' || !char.is_ascii()
 }
 
+fn is_decimal_integer(expr: &Expr) -> bool {
+    match expr {
+        Expr::Literal(ExprLiteral {
+            literal: Literal::Number(number),
+            ..
+        }) => number.raw.chars().all(|c| c.is_ascii_digit() || c == '_'),
+        _ => false,
+    }
+}
+
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
         if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
@@ -755,6 +780,20 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_member_expr(&mut self, node: &mut ExprMember) -> bool {
+        node.object.traverse(self);
+
+        if let MemberObject::Expr(object) = &node.object {
+            if matches!(node.property, MemberProperty::Ident(_)) && is_decimal_integer(object) {
+                // `1 .a`, the dot would otherwise be part of the number.
+                self.char(' ');
+            }
+        }
+
+        node.property.traverse(self);
+        false
+    }
+
     fn enter_member_property(&mut self, node: &mut MemberProperty) -> bool {
         match node {
             MemberProperty::Ident(i) => {
@@ -1184,7 +1223,10 @@ impl Visitor for CodeGenerator<'_> {
             Literal::Null => self.string("null"),
             Literal::Boolean(true) => self.string("true"),
             Literal::Boolean(false) => self.string("false"),
-            Literal::Regexp(str) => self.string(str),
+            Literal::Regexp(str) => {
+                self.string(str);
+                self.index.set_literal_end(self.pos());
+            }
             _ => return true,
         }
 
@@ -1310,6 +1352,7 @@ impl Visitor for CodeGenerator<'_> {
 
     fn enter_number_literal(&mut self, node: &mut LitNumber) -> bool {
         self.string(&node.raw);
+        self.index.set_literal_end(self.pos());
         false
     }
 
-- 
2.43.0


From efd012b4fc9e501c59acbfedf65d5441ffe7e574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 47/54] fix: generated code lacks the kind of declarations in
 for-in and for-of statements

---
 codegen/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 60b9088..1658361 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -619,6 +619,13 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_for_binding(&mut self, node: &mut ForBinding) -> bool {
+        self.string(&node.kind.to_string());
+        self.space();
+        node.binding.traverse(self);
+        false
+    }
+
     fn exit_for_init(&mut self, node: &mut ForInit) {
         if matches!(node, ForInit::Declaration(_)) {
             // Variable statements ends with semicolon, don't want that inside for syntax.
-- 
2.43.0


From 9de6b56be90a0c16fa343c3b0def5678b11ebc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 48/54] fix: generated code lacks assignment patterns

---
 codegen/src/lib.rs | 51 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 1658361..08ef1eb 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1181,6 +1181,57 @@ impl Visitor for CodeGenerator<'_> {
         false
     }
 
+    fn enter_array_assignment_pattern(&mut self, node: &mut ArrayAssignmentPattern) -> bool {
+        let spaced = !node.elements.is_empty() || node.rest.is_some();
+        self.parenthesize('[', spaced, |s| {
+            // The elements holds one `None` for each comma, also when it follows an element.
+            for element in &mut node.elements {
+                match element {
+                    Some(element) => element.traverse(s),
+                    None => {
+                        s.char(',');
+                        s.space();
+                    }
+                }
+            }
+
+            if let Some(rest) = node.rest.as_mut() {
+                s.string("...");
+                rest.traverse(s);
+            }
+        });
+        false
+    }
+
+    fn enter_assignment_element(&mut self, node: &mut AssignmentElement) -> bool {
+        node.target.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_object_assignment_pattern(&mut self, node: &mut ObjectAssignmentPattern) -> bool {
+        let spaced = !node.props.is_empty() || node.rest.is_some();
+        self.parenthesize('{', spaced, |s| {
+            s.comma_separated_with_rest(&mut node.props, &mut node.rest);
+        });
+        false
+    }
+
+    fn enter_single_name_assignment_prop(&mut self, node: &mut SingleNameAssignmentProp) -> bool {
+        node.ident.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
+    fn enter_named_assignment_prop(&mut self, node: &mut NamedAssignmentProp) -> bool {
+        node.name.traverse(self);
+        self.char(':');
+        self.space();
+        node.value.traverse(self);
+        self.initializer(&mut node.initializer);
+        false
+    }
+
     fn enter_single_name_binding(&mut self, node: &mut SingleNameBinding) -> bool {
         node.ident.traverse(self);
         self.initializer(&mut node.initializer);
-- 
2.43.0


From 88ff803e33ad8781df305c5e7ebfeeef61c4d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 49/54] fix: generated code lacks the semicolon after throw and
 namespace export

---
 codegen/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 08ef1eb..971ad83 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -506,6 +506,7 @@ impl Visitor for CodeGenerator<'_> {
         self.string("throw");
         self.space();
         node.argument.traverse(self);
+        self.char(';');
         false
     }
 
@@ -966,6 +967,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.from.traverse(self);
+        self.char(';');
         false
     }
 
-- 
2.43.0


From 8298e1e4b07c0371a6e1ffe24bdda0a19dbe4acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 50/54] fix: generated code has the wrong number of elisions at
 the end of array literals and array bindings

---
 codegen/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 971ad83..e0e51d9 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -1163,9 +1163,13 @@ impl Visitor for CodeGenerator<'_> {
             }
 
             if let Some(rest) = node.rest.as_mut() {
-                if !node.elements.is_empty() {
-                    s.char(',');
-                    s.space();
+                match node.elements.last() {
+                    Some(Some(_)) => {
+                        s.char(',');
+                        s.space();
+                    }
+                    Some(None) => s.space(),
+                    None => {}
                 }
 
                 s.string("...");
@@ -1309,6 +1313,10 @@ impl Visitor for CodeGenerator<'_> {
         let spaced = !node.elements.is_empty();
         self.parenthesize('[', spaced, |s| {
             s.comma_separated(&mut node.elements);
+
+            if let Some(ArrayElement::Elision) = node.elements.last() {
+                s.char(',');
+            }
         });
         false
     }
-- 
2.43.0


From e327484a14223c9c55e86245fb6ca0cbb1ce87eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 51/54] fix: minified code lacks the empty statement that is
 the body of another statement

---
 codegen/src/lib.rs | 82 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 25 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index e0e51d9..755f9cb 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -47,6 +47,7 @@ struct Index {
     last_new_line: Cell<usize>,
     last_block_start: Cell<usize>,
     last_literal_end: Cell<usize>,
+    last_semicolon: Cell<usize>,
 }
 
 impl Index {
@@ -55,6 +56,7 @@ impl Index {
             last_new_line: Cell::new(0),
             last_block_start: Cell::new(0),
             last_literal_end: Cell::new(0),
+            last_semicolon: Cell::new(0),
         }
     }
 
@@ -81,6 +83,14 @@ impl Index {
     fn set_literal_end(&self, pos: usize) {
         self.last_literal_end.replace(pos);
     }
+
+    fn last_semicolon(&self) -> usize {
+        self.last_semicolon.get()
+    }
+
+    fn set_semicolon(&self, pos: usize) {
+        self.last_semicolon.replace(pos);
+    }
 }
 
 struct CodeGenerator<'a> {
@@ -358,12 +368,33 @@ impl CodeGenerator<'_> {
 
         if self.ctx.minified {
             // No ';' is necessary before a '}'.
-            self.remove_last(';');
+            self.remove_semicolon();
         }
 
         self.char('}');
     }
 
+    /// Add the semicolon of a statement.
+    fn semicolon(&mut self) {
+        self.char(';');
+        self.index.set_semicolon(self.pos());
+    }
+
+    /// Remove last char in output if it is a semicolon that is not necessary at the end of a block.
+    fn remove_semicolon(&mut self) -> bool {
+        self.index.last_semicolon() == self.pos() && self.remove_last(';')
+    }
+
+    /// Body of an `if`, `for`, `while`, ... statement.
+    fn stmt_body(&mut self, body: &mut Stmt) {
+        body.traverse(self);
+
+        if matches!(body, Stmt::Empty(_)) {
+            // The semicolon is the body, it must not be removed.
+            self.index.set_semicolon(0);
+        }
+    }
+
     /// At the end of a literal which a word would be part of, i.e. `1.` or `/a/`.
     fn at_literal_end(&self) -> bool {
         self.pos() != 0 && self.index.last_literal_end() == self.pos()
@@ -436,7 +467,7 @@ fn is_decimal_integer(expr: &Expr) -> bool {
 
 impl Visitor for CodeGenerator<'_> {
     fn exit_program(&mut self, _node: &mut Program) {
-        if self.ctx.minified && self.remove_last(';') && matches!(self.last(), Some(')')) {
+        if self.ctx.minified && self.remove_semicolon() && matches!(self.last(), Some(')')) {
             // Don't remove semi colon if that render the last char a ')' since that could
             // result in invalid code like `for(true)`, `if(true)`, ...
             self.char(';');
@@ -446,7 +477,7 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_stmt_list(&mut self, node: &mut StmtList<Stmt>) -> bool {
         for directive in &mut node.directives {
             directive.traverse(self);
-            self.char(';');
+            self.semicolon();
             self.new_line();
         }
         node.body.traverse(self);
@@ -498,7 +529,7 @@ impl Visitor for CodeGenerator<'_> {
         node.label.traverse(self);
         self.char(':');
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -506,7 +537,7 @@ impl Visitor for CodeGenerator<'_> {
         self.string("throw");
         self.space();
         node.argument.traverse(self);
-        self.char(';');
+        self.semicolon();
         false
     }
 
@@ -536,13 +567,13 @@ impl Visitor for CodeGenerator<'_> {
 
         self.new_line();
 
-        node.consequent.traverse(&mut self.with_indent());
+        self.with_indent().stmt_body(&mut node.consequent);
 
-        if node.alternate.is_some() {
+        if let Some(alternate) = node.alternate.as_mut() {
             self.string("else");
             self.new_line();
 
-            node.alternate.traverse(&mut self.with_indent());
+            self.with_indent().stmt_body(alternate);
         }
 
         false
@@ -593,7 +624,7 @@ impl Visitor for CodeGenerator<'_> {
         });
 
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -616,7 +647,7 @@ impl Visitor for CodeGenerator<'_> {
         });
 
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -648,7 +679,7 @@ impl Visitor for CodeGenerator<'_> {
         });
 
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -661,7 +692,7 @@ impl Visitor for CodeGenerator<'_> {
         });
 
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
 
         false
     }
@@ -952,7 +983,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.expr.traverse(self);
-        self.char(';');
+        self.semicolon();
         false
     }
 
@@ -967,7 +998,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.from.traverse(self);
-        self.char(';');
+        self.semicolon();
         false
     }
 
@@ -986,7 +1017,7 @@ impl Visitor for CodeGenerator<'_> {
             from.traverse(self);
         }
 
-        self.char(';');
+        self.semicolon();
         false
     }
 
@@ -1042,7 +1073,7 @@ impl Visitor for CodeGenerator<'_> {
         self.space();
 
         node.from.traverse(self);
-        self.char(';');
+        self.semicolon();
         false
     }
 
@@ -1058,7 +1089,7 @@ impl Visitor for CodeGenerator<'_> {
         let mut printer = self.with_indent();
         for x in &mut node.directives {
             x.traverse(&mut printer);
-            printer.char(';');
+            printer.semicolon();
             printer.new_line();
         }
 
@@ -1075,7 +1106,7 @@ impl Visitor for CodeGenerator<'_> {
             node.argument.traverse(self);
         }
 
-        self.char(';');
+        self.semicolon();
         false
     }
 
@@ -1087,7 +1118,7 @@ impl Visitor for CodeGenerator<'_> {
     }
 
     fn enter_empty_statement(&mut self, _node: &mut StmtEmpty) -> bool {
-        self.char(';');
+        self.semicolon();
         false
     }
 
@@ -1139,7 +1170,7 @@ impl Visitor for CodeGenerator<'_> {
                     printer.space();
                 }
             } else {
-                printer.char(';');
+                printer.semicolon();
             }
         }
 
@@ -1377,7 +1408,7 @@ impl Visitor for CodeGenerator<'_> {
             node.label.traverse(self);
         }
 
-        self.char(';');
+        self.semicolon();
 
         false
     }
@@ -1390,12 +1421,12 @@ impl Visitor for CodeGenerator<'_> {
             node.label.traverse(self);
         }
 
-        self.char(';');
+        self.semicolon();
         false
     }
 
     fn exit_stmt_expr(&mut self, _node: &mut StmtExpr) {
-        self.char(';');
+        self.semicolon();
     }
 
     fn exit_stmt(&mut self, _node: &mut Stmt) {
@@ -1409,7 +1440,7 @@ impl Visitor for CodeGenerator<'_> {
         node.object.traverse(self);
         self.char(')');
         self.space();
-        node.body.traverse(self);
+        self.stmt_body(&mut node.body);
         false
     }
 
@@ -1430,7 +1461,8 @@ impl Visitor for CodeGenerator<'_> {
     }
 
     fn enter_debugger_stmt(&mut self, _node: &mut StmtDebugger) -> bool {
-        self.string("debugger;");
+        self.string("debugger");
+        self.semicolon();
         false
     }
 }
-- 
2.43.0


From 8f0b0da07fcfd59cb97ab85214afe9156b9b8254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:38 +0000
Subject: [PATCH 52/54] fix: generated code does not escape delimiters and
 backslashes in strings and templates

---
 codegen/src/lib.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/codegen/src/lib.rs b/codegen/src/lib.rs
index 755f9cb..ce0e307 100644
--- a/codegen/src/lib.rs
+++ b/codegen/src/lib.rs
@@ -455,6 +455,22 @@ fn is_word_char(char: char) -> bool {
     char.is_ascii_alphanumeric() || char == '$' || char == '_' || !char.is_ascii()
 }
 
+/// Escapes characters of a literal, `must_escape` is given each character and the one following it.
+fn escape<F>(str: &str, must_escape: F) -> String
+where
+    F: Fn(char, Option<char>) -> bool,
+{
+    let mut result = String::new();
+    let mut chars = str.chars().peekable();
+    while let Some(c) = chars.next() {
+        if must_escape(c, chars.peek().copied()) {
+            result.push('\\');
+        }
+        result.push(c);
+    }
+    result
+}
+
 fn is_decimal_integer(expr: &Expr) -> bool {
     match expr {
         Expr::Literal(ExprLiteral {
@@ -1329,7 +1345,10 @@ impl Visitor for CodeGenerator<'_> {
     }
 
     fn enter_string_literal(&mut self, node: &mut LitString) -> bool {
-        self.quote(node.delimiter, &node.value);
+        let value = escape(&node.value, |c, _| {
+            c == node.delimiter || c == '\\' || c == '\n' || c == '\r'
+        });
+        self.quote(node.delimiter, &value);
         false
     }
 
@@ -1363,7 +1382,9 @@ impl Visitor for CodeGenerator<'_> {
     fn enter_template_part(&mut self, node: &mut TemplatePart) -> bool {
         match node {
             TemplatePart::String(str) => {
-                self.raw(str);
+                self.raw(&escape(str, |c, next| {
+                    c == '`' || c == '\\' || (c == '$' && next == Some('{'))
+                }));
             }
             TemplatePart::Expr(expr) => {
                 self.raw("${");
-- 
2.43.0


From 605d42b3ca4b5a664b6cd56df35cf34fde2d0290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:30 +0000
Subject: [PATCH 53/54] fix: a span text of more than two numbers is read as a
 span

---
 ast/src/span.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ast/src/span.rs b/ast/src/span.rs
index f798f8f..f598c1b 100644
--- a/ast/src/span.rs
+++ b/ast/src/span.rs
@@ -56,14 +56,10 @@ impl<'de> Deserialize<'de> for Span {
             where
                 E: serde::de::Error,
             {
-                let mut parts = str.split(':').map(|part| part.parse().ok());
-                if let (Some(Some(start)), Some(Some(end))) = (parts.next(), parts.next()) {
-                    Ok(Span { start, end })
-                } else {
-                    Err(serde::de::Error::custom(format!(
-                        "{str} is not a valid span."
-                    )))
-                }
+                str.split_once(':')
+                    .and_then(|(start, end)| Some((start.parse().ok()?, end.parse().ok()?)))
+                    .map(|(start, end)| Span { start, end })
+                    .ok_or_else(|| E::custom(format!("{str} is not a valid span.")))
             }
         }
 
-- 
2.43.0


From d221dbe2e804518b577c0f2f92f32aa1ad1accfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:22 +0000
Subject: [PATCH 54/54] fix: a statement or expression of a module is not read
 as strict mode code

---
 parser/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/lib.rs b/parser/src/lib.rs
index ff1e25a..12fc42f 100644
--- a/parser/src/lib.rs
+++ b/parser/src/lib.rs
@@ -169,8 +169,9 @@ impl Parse for Expr {
         I: PeekRead<Token, Error = fajt_lexer::error::Error>,
         I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
     {
+        let strict_mode = parser.source_type == SourceType::Module;
         parser
-            .with_context(Context::default().with_in(true))
+            .with_context(Context::default().with_in(true).with_strict(strict_mode))
             .parse_expr()
     }
 }
@@ -181,7 +182,10 @@ impl Parse for Stmt {
         I: PeekRead<Token, Error = fajt_lexer::error::Error>,
         I: ReReadWithState<Token, State = LexerState, Error = fajt_lexer::error::Error>,
     {
-        parser.parse_module_item()
+        let strict_mode = parser.source_type == SourceType::Module;
+        parser
+            .with_context(parser.context.with_strict(strict_mode))
+            .parse_module_item()
     }
 }
 
-- 
2.43.0

