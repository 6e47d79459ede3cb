From d6c769b18153a603c7b7e1436a5c21198e1d6aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:30 +0000
Subject: [PATCH 01/42] fix: lex 'not in' and 'is not' in front of any non-word
 character

---
 crates/ludtwig-parser/src/syntax/untyped.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 3c87813..7f6300e 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -551,12 +551,17 @@ pub enum SyntaxKind {
     ROOT, // top-level node: list of elements inside the template (must be last item of enum for safety check!)
 }
 
+/// characters which can continue a word
+fn is_word_char(c: char) -> bool {
+    c.is_ascii_alphanumeric() || c == '_' || c == '-'
+}
+
 /// workaround to properly lex 'not insider' to TK_NOT + TK_WS + TK_WORD instead of TK_NOT_IN + TK_WORD
 fn cb_not(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " in";
     if lexer.remainder().starts_with(SUFFIX) {
         let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
+        if after.is_none_or(|s| !s.starts_with(is_word_char)) {
             lexer.bump(SUFFIX.len());
             SyntaxKind::TK_NOT_IN
         } else {
@@ -572,7 +577,7 @@ fn cb_is(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " not";
     if lexer.remainder().starts_with(SUFFIX) {
         let after = lexer.remainder().get(SUFFIX.len()..);
-        if after.is_none_or(|s| s.starts_with([' ', '\t', '\n']) || s.is_empty()) {
+        if after.is_none_or(|s| !s.starts_with(is_word_char)) {
             lexer.bump(SUFFIX.len());
             SyntaxKind::TK_IS_NOT
         } else {
-- 
2.43.0


From 5ea7f33838c29a5a6d9d3ee8fd3cd0f0f5ab9b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 02/42] fix: report a missing arrow after arrow function
 arguments instead of panicking

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index f5f0d88..3e3dce4 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -439,12 +439,10 @@ pub(crate) fn parse_twig_arrow_function(
     parser: &mut Parser,
     last_node: CompletedMarker,
 ) -> CompletedMarker {
-    debug_assert!(parser.at(T!["=>"]));
-
     let outer = parser.precede(last_node);
 
-    // bump the arrow
-    parser.bump();
+    // the arrow may be missing after an argument list in parentheses
+    parser.expect(T!["=>"], TWIG_EXPRESSION_RECOVERY_SET);
 
     // parse closure expression
     if parse_twig_expression(parser).is_none() {
-- 
2.43.0


From b9d54be085405edf630d020cc1840e99bc9e59a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:38 +0000
Subject: [PATCH 03/42] fix: parse null and booleans after an opening
 parenthesis as literals

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 9a7caf4..6557e62 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -264,10 +264,14 @@ fn parse_paren_expression(parser: &mut Parser) -> (Marker, bool) {
     parser.bump();
 
     // first check for non existent unary expression token to be a arrow function
-    if parser
-        .peek_token()
-        .is_some_and(|t| t.kind.unary_binding_power().is_none())
-    {
+    // (literals and tests with implicit arguments only look like a name)
+    if parser.peek_token().is_some_and(|t| {
+        t.kind.unary_binding_power().is_none()
+            && !matches!(
+                t.kind,
+                T!["null"] | T!["true"] | T!["false"] | T!["same as"] | T!["divisible by"]
+            )
+    }) {
         // check for a simple name literal
         if let Some(mut lit_m) = parse_twig_name(parser) {
             if parser.at(T![","]) || parser.at_following(&[T![")"], T!["=>"]]) {
-- 
2.43.0


From ebb509e449b5d35259c5045410f1294b516c875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 04/42] fix: treat endcomponent as a terminating twig tag

---
 crates/ludtwig-parser/src/grammar/twig/tags.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index 3dfbfca..bf7a443 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -38,6 +38,7 @@ pub(crate) fn at_twig_termination_tag(p: &mut Parser) -> bool {
         T!["endcache"],
         T!["endsw_silent_feature_call"],
         T!["endtrans"],
+        T!["endcomponent"],
     ];
 
     if !p.at_twig_block_open() {
-- 
2.43.0


From db1851d22ad6644500c7c02def5fb59603f7b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:59 +0000
Subject: [PATCH 05/42] fix: an implicit test argument does not swallow the
 operators behind it

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs | 6 ++++++
 crates/ludtwig-parser/src/grammar/twig/literal.rs    | 6 ++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 6557e62..6fa5646 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -134,6 +134,12 @@ impl Operator for SyntaxKind {
     }
 }
 
+/// Parses a single operand including its postfix operators, but no binary or ternary operators around it
+pub(super) fn parse_twig_operand_expression(parser: &mut Parser) -> Option<CompletedMarker> {
+    // binds stronger than every binary operator
+    parse_twig_expression_binding_power(parser, 201)
+}
+
 fn parse_twig_expression_binding_power(
     parser: &mut Parser,
     minimum_binding_power: u8,
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 3e3dce4..6ad483b 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -1,6 +1,8 @@
 use crate::T;
 use crate::grammar::parse_many;
-use crate::grammar::twig::expression::{TWIG_EXPRESSION_RECOVERY_SET, parse_twig_expression};
+use crate::grammar::twig::expression::{
+    TWIG_EXPRESSION_RECOVERY_SET, parse_twig_expression, parse_twig_operand_expression,
+};
 use crate::parser::event::CompletedMarker;
 use crate::parser::{ParseErrorBuilder, Parser};
 use crate::syntax::untyped::SyntaxKind;
@@ -426,7 +428,7 @@ fn parse_twig_test_implicit_argument(
 
     // parse the single argument expression without parentheses
     let arguments_m = parser.start();
-    if parse_twig_expression(parser).is_none() {
+    if parse_twig_operand_expression(parser).is_none() {
         parser.add_error(ParseErrorBuilder::new("argument for twig test"));
         parser.recover(TWIG_EXPRESSION_RECOVERY_SET);
     }
-- 
2.43.0


From 9a664e61b8e9a30d8b5979b5a9afcf13de735083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:21 +0000
Subject: [PATCH 06/42] fix: only directly following tokens form an escape or
 interpolation in twig strings

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 6ad483b..fc35853 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -98,11 +98,15 @@ pub(crate) fn parse_twig_string(
         parser,
         |p| p.at(quote_kind),
         |p| {
-            if p.at_following(&[T!["\\"], quote_kind]) {
-                // escaped quote should be consumed
+            // only tokens directly behind each other belong together (trivia is part of the string)
+            let next_kind = p.peek_nth_token(1).map(|t| t.kind);
+            let next_is_escapable =
+                next_kind.is_some_and(|k| k == quote_kind || k == T!["\\"] || k == T!["#"]);
+            if p.at(T!["\\"]) && next_is_escapable {
+                // escaped quote, backslash or hashtag should be consumed
                 p.bump();
                 p.bump();
-            } else if p.at_following(&[T!["#"], T!["{"]]) {
+            } else if p.at(T!["#"]) && next_kind == Some(T!["{"]) {
                 if !interpolation_allowed {
                     let opening_token = p.bump();
                     let interpolation_error = ParseErrorBuilder::new(
-- 
2.43.0


From a5ed94e3d961505b65c774ba5924af85ff18251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:46 +0000
Subject: [PATCH 07/42] fix: don't swallow the dash of a closing delimiter into
 the word before it

---
 crates/ludtwig-parser/src/syntax/untyped.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 7f6300e..57d3eef 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -47,7 +47,10 @@ pub enum SyntaxKind {
     /// a single word containing only characters, numbers or symbols
     /// must start with an alpha or one of the special starting characters followed by a normal alpha
     /// special case: allows a single underscore as a valid word
-    #[regex(r"([a-zA-Z]|([@\#_\$][a-zA-Z])|_)[a-zA-Z0-9_\-]*")]
+    #[regex(
+        r"([a-zA-Z]|([@\#_\$][a-zA-Z])|_)([a-zA-Z0-9_\-]*[a-zA-Z0-9_])?",
+        cb_word
+    )]
     TK_WORD,
     /// matches namespaced twig component names like 'twig:my:component'
     #[regex(r"twig(\:[a-zA-Z0-9_\-]+)+")]
@@ -556,6 +559,21 @@ fn is_word_char(c: char) -> bool {
     c.is_ascii_alphanumeric() || c == '_' || c == '-'
 }
 
+/// trailing dashes belong to a word as long as they don't start a closing token like '-->' or '-}}'
+fn cb_word(lexer: &mut Lexer<'_, SyntaxKind>) {
+    let remainder = lexer.remainder();
+    let after = remainder.trim_start_matches('-');
+    let dashes = remainder.len() - after.len();
+    let closing = if after.starts_with('>') && dashes >= 2 {
+        2
+    } else if after.starts_with("}}") || after.starts_with("%}") || after.starts_with("#}") {
+        1
+    } else {
+        0
+    };
+    lexer.bump(dashes.saturating_sub(closing));
+}
+
 /// workaround to properly lex 'not insider' to TK_NOT + TK_WS + TK_WORD instead of TK_NOT_IN + TK_WORD
 fn cb_not(lexer: &mut Lexer<'_, SyntaxKind>) -> SyntaxKind {
     const SUFFIX: &str = " in";
-- 
2.43.0


From 9e136e72321dafd34ee34487246a268ffc90c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:13 +0000
Subject: [PATCH 08/42] fix: accept keywords as named argument names and
 unquoted attribute values

---
 crates/ludtwig-parser/src/grammar/html.rs         |  7 +++++--
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 10 +++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d922240..97fb9a8 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -357,8 +357,11 @@ fn parse_html_attribute_value_string(parser: &mut Parser) -> CompletedMarker {
     }
 
     fn inner_no_quote_parser(parser: &mut Parser) -> Option<CompletedMarker> {
-        if parser.at(T![word]) {
-            parser.bump();
+        if parser
+            .peek_token()
+            .is_some_and(|t| t.kind == T![word] || HTML_ATTRIBUTE_NAME_REGEX.is_match(t.text))
+        {
+            parser.bump_as(T![word]); // keywords are also valid words here
         } else if parser.at_twig_var_open() {
             // a single twig var expression with missing quotes should also count as an html attribute value
             parse_twig_var_statement(parser);
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index fc35853..353fb01 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -463,11 +463,15 @@ pub(crate) fn parse_twig_arrow_function(
 }
 
 pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<CompletedMarker> {
-    // must be specific here with word followed by equal, because otherwise it could
+    // must be specific here with name followed by equal, because otherwise it could
     // be a normal variable or another function call or something else..
-    if parser.at_following(&[T![word], T!["="]]) {
+    if parser.peek_next_non_trivia_kind() == Some(T!["="])
+        && parser
+            .peek_token()
+            .is_some_and(|t| t.kind == T![word] || TWIG_NAME_REGEX.is_match(t.text))
+    {
         let named_arg_m = parser.start();
-        parser.bump();
+        parser.bump_as(T![word]); // keywords are also valid argument names
         parser.expect(T!["="], TWIG_EXPRESSION_RECOVERY_SET);
         parse_twig_expression(parser);
         Some(parser.complete(named_arg_m, SyntaxKind::TWIG_NAMED_ARGUMENT))
-- 
2.43.0


From 3b71499dcbf896ffcd81bf7e473210689915e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:58 +0000
Subject: [PATCH 09/42] fix: don't panic on an incomplete twig tag inside raw
 text elements

---
 crates/ludtwig-parser/src/grammar/html.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index 97fb9a8..d254d4a 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -106,7 +106,8 @@ fn parse_html_raw_text(
                 false
             },
             |p| {
-                if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+                let pos = p.get_pos();
+                if parse_any_twig(p, parse_html_raw_text_inner).is_none() && p.get_pos() == pos {
                     p.bump(); // just bump anything until the early exit closure stops us
                 }
             },
@@ -135,7 +136,8 @@ fn parse_html_raw_text(
             false
         },
         |p| {
-            if parse_any_twig(p, parse_html_raw_text_inner).is_none() {
+            let pos = p.get_pos();
+            if parse_any_twig(p, parse_html_raw_text_inner).is_none() && p.get_pos() == pos {
                 p.bump(); // just bump anything until the early exit closure stops us
             }
         },
-- 
2.43.0


From 3605d9a1350b9f0917cae0e64f5bbe77f5572f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 10/42] fix: '<' in front of a line break is text, the same as
 in front of a blank

---
 crates/ludtwig-parser/src/grammar/html.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index d254d4a..5081542 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -26,7 +26,10 @@ static HTML_RAW_TEXT_ELEMENTS: &[&str] = &["script", "style", "textarea", "title
 pub(super) fn parse_any_html(parser: &mut Parser) -> Option<CompletedMarker> {
     if parser.at(T!["<"])
         && parser.peek_nth_token(1).is_some_and(|t| {
-            t.kind != T![ws] && t.kind != T![number] && !GENERAL_RECOVERY_SET.contains(&t.kind)
+            t.kind != T![ws]
+                && t.kind != T![lb]
+                && t.kind != T![number]
+                && !GENERAL_RECOVERY_SET.contains(&t.kind)
         })
     {
         // '<' should not be followed by EOF, a ws, a number or RECOVERY_SET token,
@@ -57,7 +60,10 @@ fn parse_html_text(parser: &mut Parser) -> Option<CompletedMarker> {
     fn parser_at_less_than_non_word(p: &mut Parser) -> bool {
         p.at(T!["<"])
             && p.peek_nth_token(1).is_none_or(|t| {
-                t.kind == T![ws] || t.kind == T![number] || GENERAL_RECOVERY_SET.contains(&t.kind)
+                t.kind == T![ws]
+                    || t.kind == T![lb]
+                    || t.kind == T![number]
+                    || GENERAL_RECOVERY_SET.contains(&t.kind)
             })
     }
 
-- 
2.43.0


From e74c33362fec4bee5bd7c0edc2f8e52a0f861e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 11/42] fix: lhs and rhs of a binary expression are the
 operands on their side of the operator

---
 crates/ludtwig-parser/src/syntax/typed.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index bb188ce..cffe2cd 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -319,15 +319,22 @@ impl TwigBinaryExpression {
 
     #[must_use]
     pub fn lhs_expression(&self) -> Option<TwigExpression> {
-        self.syntax.children().find_map(TwigExpression::cast)
+        // the left operand isn't always wrapped in a TwigExpression
+        // and therefore anything after the operator doesn't belong to it.
+        self.syntax
+            .children_with_tokens()
+            .take_while(|element| element.as_token().is_none_or(|t| t.kind().is_trivia()))
+            .filter_map(NodeOrToken::into_node)
+            .find_map(TwigExpression::cast)
     }
 
     #[must_use]
     pub fn rhs_expression(&self) -> Option<TwigExpression> {
         self.syntax
-            .children()
-            .filter_map(TwigExpression::cast)
-            .nth(1)
+            .children_with_tokens()
+            .skip_while(|element| element.as_token().is_none_or(|t| t.kind().is_trivia()))
+            .filter_map(NodeOrToken::into_node)
+            .find_map(TwigExpression::cast)
     }
 }
 
-- 
2.43.0


From a4e41e831f3027501cae0826201283b3b4e6860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:20 +0000
Subject: [PATCH 12/42] fix: report missing operands and empty parentheses in
 twig expressions

---
 .../ludtwig-parser/src/grammar/twig/expression.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 6fa5646..5895277 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -178,6 +178,7 @@ pub(crate) fn parse_twig_expression_binding_power_rhs(
         lhs = parser.complete(m, SyntaxKind::TWIG_BINARY_EXPRESSION);
 
         if !parsed_rhs {
+            parser.add_error(ParseErrorBuilder::new("twig expression"));
             break;
         }
     }
@@ -298,17 +299,23 @@ fn parse_paren_expression(parser: &mut Parser) -> (Marker, bool) {
             parse_twig_expression_binding_power_rhs(parser, 0, lhs);
         } else {
             // found a real expression, so it can't be a arrow function at this point anymore
-            parse_twig_expression_binding_power(parser, 0);
+            parse_inner_paren_expression(parser);
         }
     } else {
         // found a real expression, so it can't be a arrow function at this point anymore
-        parse_twig_expression_binding_power(parser, 0);
+        parse_inner_paren_expression(parser);
     }
 
     parser.expect(T![")"], TWIG_EXPRESSION_RECOVERY_SET);
     (m, true)
 }
 
+fn parse_inner_paren_expression(parser: &mut Parser) {
+    if parse_twig_expression_binding_power(parser, 0).is_none() {
+        parser.add_error(ParseErrorBuilder::new("twig expression"));
+    }
+}
+
 fn parse_paren_arrow_function(parser: &mut Parser, m: Marker) -> CompletedMarker {
     debug_assert!(parser.at(T![","]) || parser.at(T![")"]));
 
@@ -339,7 +346,9 @@ fn parse_unary_expression(parser: &mut Parser) -> CompletedMarker {
         .unary_binding_power()
         .expect("'-', '+', 'not' and '...' should have a binding power");
 
-    parse_twig_expression_binding_power(parser, right_binding_power);
+    if parse_twig_expression_binding_power(parser, right_binding_power).is_none() {
+        parser.add_error(ParseErrorBuilder::new("twig expression"));
+    }
 
     parser.complete(m, SyntaxKind::TWIG_UNARY_EXPRESSION)
 }
-- 
2.43.0


From 65b3b5f10b98dc8400698a32705caba786a235b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:59 +0000
Subject: [PATCH 13/42] fix: convert every single line break to CRLF, runs of
 LF included

---
 crates/ludtwig/src/check/rules/line_ending.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/line_ending.rs b/crates/ludtwig/src/check/rules/line_ending.rs
index ad1ef0c..38c2b3b 100644
--- a/crates/ludtwig/src/check/rules/line_ending.rs
+++ b/crates/ludtwig/src/check/rules/line_ending.rs
@@ -30,7 +30,7 @@ impl Rule for RuleLineEnding {
                 r"({})",
                 match ctx.config().format.line_ending {
                     LineEnding::UnixLF => "\r\n", // inverse: look for windows line endings
-                    LineEnding::WindowsCRLF => "[^\r]?\n", // inverse: look for unix line endings
+                    LineEnding::WindowsCRLF => "\r?\n", // look for every line ending and skip the correct ones
                 }
             ))
             .unwrap()
@@ -38,6 +38,10 @@ impl Rule for RuleLineEnding {
 
         let mut results = vec![];
         for invalid in invalid_regex.find_iter(token.text()) {
+            if invalid.as_str() == correct_line_ending {
+                continue;
+            }
+
             #[allow(clippy::cast_possible_truncation)]
             let range = TextRange::new(
                 token.text_range().start() + TextSize::from(invalid.start() as u32),
-- 
2.43.0


From e184dda144c9b2b87d6cdec72aebb73cd6fd828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:08 +0000
Subject: [PATCH 14/42] fix: content behind a nested string or element stays
 whitespace-sensitive

---
 crates/ludtwig/src/check.rs                   | 42 ++++++++++---------
 crates/ludtwig/src/check/rules/indentation.rs | 23 +++++-----
 2 files changed, 34 insertions(+), 31 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 10b97de..7502349 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -9,7 +9,9 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxToken, WalkEvent, debug_tree};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree,
+};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
@@ -91,16 +93,8 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
                         }
 
                         // adjust traversal context when entering special nodes
-                        if HtmlStringInner::can_cast(n.kind())
-                            || TwigLiteralStringInner::can_cast(n.kind())
-                        {
+                        if is_trivia_sensitive(&n) {
                             run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                        } else if let Some(t) = HtmlTag::cast(n.clone()) {
-                            if let Some("pre" | "textarea" | "script" | "style") =
-                                t.name().as_ref().map(SyntaxToken::text)
-                            {
-                                run_context.traversal_ctx.inside_trivia_sensitive_node = true;
-                            }
                         }
 
                         // run node checks for every rule
@@ -155,16 +149,10 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
 
                 // adjust traversal context when exiting special nodes
                 if let SyntaxElement::Node(n) = element {
-                    if HtmlStringInner::can_cast(n.kind())
-                        || TwigLiteralStringInner::can_cast(n.kind())
-                    {
-                        run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                    } else if let Some(t) = HtmlTag::cast(n) {
-                        if let Some("pre" | "textarea" | "script" | "style") =
-                            t.name().as_ref().map(SyntaxToken::text)
-                        {
-                            run_context.traversal_ctx.inside_trivia_sensitive_node = false;
-                        }
+                    if is_trivia_sensitive(&n) {
+                        // special nodes can be nested (e.g. a string inside of a pre element)
+                        run_context.traversal_ctx.inside_trivia_sensitive_node =
+                            n.ancestors().skip(1).any(|a| is_trivia_sensitive(&a));
                     }
                 }
             }
@@ -174,6 +162,20 @@ pub fn run_rules(file_context: &FileContext) -> Vec<CheckResult> {
     check_results
 }
 
+/// Special nodes whose trivia (whitespace, line breaks) is part of their content
+pub fn is_trivia_sensitive(n: &SyntaxNode) -> bool {
+    if HtmlStringInner::can_cast(n.kind()) || TwigLiteralStringInner::can_cast(n.kind()) {
+        return true;
+    }
+
+    HtmlTag::cast(n.clone()).is_some_and(|t| {
+        matches!(
+            t.name().as_ref().map(SyntaxToken::text),
+            Some("pre" | "textarea" | "script" | "style")
+        )
+    })
+}
+
 pub fn get_rule_context_suggestions(
     check_results: &[CheckResult],
 ) -> Vec<(&'static str, &CheckSuggestion)> {
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index b8466f6..fea7ee1 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -4,6 +4,7 @@ use ludtwig_parser::syntax::untyped::{
     WalkEvent,
 };
 
+use crate::check::is_trivia_sensitive;
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
 pub struct RuleIndentation;
@@ -247,17 +248,17 @@ impl RuleIndentation {
         n: &SyntaxNode,
         walk_mode: WalkMode,
     ) {
-        if let Some(t) = HtmlTag::cast(n.clone()) {
-            if let Some("pre" | "textarea" | "script" | "style") =
-                t.name().as_ref().map(SyntaxToken::text)
-            {
-                match walk_mode {
-                    WalkMode::Enter => {
-                        *inside_trivia_sensitive_node = true;
-                    }
-                    WalkMode::Leave => {
-                        *inside_trivia_sensitive_node = false;
-                    }
+        if HtmlTag::can_cast(n.kind()) && is_trivia_sensitive(n) {
+            match walk_mode {
+                WalkMode::Enter => {
+                    *inside_trivia_sensitive_node = true;
+                }
+                WalkMode::Leave => {
+                    // special nodes can be nested (e.g. a script inside of a pre element)
+                    *inside_trivia_sensitive_node = n
+                        .ancestors()
+                        .skip(1)
+                        .any(|a| HtmlTag::can_cast(a.kind()) && is_trivia_sensitive(&a));
                 }
             }
         }
-- 
2.43.0


From 07aa0c998f404e5e8707969a97c8d7fcbe448915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:36 +0000
Subject: [PATCH 15/42] fix: upper case pre, textarea, script and style
 elements are whitespace-sensitive too

---
 crates/ludtwig/src/check.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 7502349..992fbf1 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -9,9 +9,7 @@ use ludtwig_parser::syntax::typed;
 use ludtwig_parser::syntax::typed::{
     AstNode, HtmlStringInner, HtmlTag, LudtwigDirectiveIgnore, TwigLiteralStringInner,
 };
-use ludtwig_parser::syntax::untyped::{
-    SyntaxElement, SyntaxNode, SyntaxToken, WalkEvent, debug_tree,
-};
+use ludtwig_parser::syntax::untyped::{SyntaxElement, SyntaxNode, WalkEvent, debug_tree};
 
 use crate::ProcessingEvent;
 use crate::check::rule::{
@@ -169,10 +167,11 @@ pub fn is_trivia_sensitive(n: &SyntaxNode) -> bool {
     }
 
     HtmlTag::cast(n.clone()).is_some_and(|t| {
-        matches!(
-            t.name().as_ref().map(SyntaxToken::text),
-            Some("pre" | "textarea" | "script" | "style")
-        )
+        t.name().is_some_and(|name| {
+            ["pre", "textarea", "script", "style"]
+                .iter()
+                .any(|sensitive| name.text().eq_ignore_ascii_case(sensitive))
+        })
     })
 }
 
-- 
2.43.0


From d85733f63acb89ecdc5eb3bdeedafedb224537be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:02 +0000
Subject: [PATCH 16/42] fix: indentation keeps the content of strings and
 attribute values

---
 crates/ludtwig/src/check/rules/indentation.rs | 43 +++++--------------
 1 file changed, 11 insertions(+), 32 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index fea7ee1..065c92f 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -1,4 +1,4 @@
-use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, HtmlTag, LudtwigDirectiveIgnore};
+use ludtwig_parser::syntax::typed::{AstNode, HtmlStartingTag, LudtwigDirectiveIgnore};
 use ludtwig_parser::syntax::untyped::{
     PreorderWithTokens, SyntaxElement, SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize,
     WalkEvent,
@@ -57,11 +57,9 @@ impl Rule for RuleIndentation {
                                 continue;
                             }
 
-                            Self::check_for_trivia_sensitivity(
-                                &mut inside_trivia_sensitive_node,
-                                &n,
-                                WalkMode::Enter,
-                            );
+                            if is_trivia_sensitive(&n) {
+                                inside_trivia_sensitive_node = true;
+                            }
 
                             Self::check_indentation_level(
                                 &mut indentation_level,
@@ -82,11 +80,13 @@ impl Rule for RuleIndentation {
                     if let SyntaxElement::Node(n) = element {
                         self.check_for_rule_ignore_leave(&mut is_ignored, &n);
 
-                        Self::check_for_trivia_sensitivity(
-                            &mut inside_trivia_sensitive_node,
-                            &n,
-                            WalkMode::Leave,
-                        );
+                        if is_trivia_sensitive(&n) {
+                            // special nodes can be nested (e.g. a string inside of a pre element)
+                            inside_trivia_sensitive_node =
+                                n.ancestors().skip(1).any(|a| is_trivia_sensitive(&a));
+                            // a line break at the end is content, too (e.g. before a closing quote)
+                            line_break_encountered = false;
+                        }
 
                         Self::check_indentation_level(
                             &mut indentation_level,
@@ -243,27 +243,6 @@ impl RuleIndentation {
         }
     }
 
-    fn check_for_trivia_sensitivity(
-        inside_trivia_sensitive_node: &mut bool,
-        n: &SyntaxNode,
-        walk_mode: WalkMode,
-    ) {
-        if HtmlTag::can_cast(n.kind()) && is_trivia_sensitive(n) {
-            match walk_mode {
-                WalkMode::Enter => {
-                    *inside_trivia_sensitive_node = true;
-                }
-                WalkMode::Leave => {
-                    // special nodes can be nested (e.g. a script inside of a pre element)
-                    *inside_trivia_sensitive_node = n
-                        .ancestors()
-                        .skip(1)
-                        .any(|a| HtmlTag::can_cast(a.kind()) && is_trivia_sensitive(&a));
-                }
-            }
-        }
-    }
-
     fn check_indentation_level(
         indentation_level: &mut usize,
         indent_block_children: bool,
-- 
2.43.0


From bf72ecd7fe23971c77d7aee7ecae305a5900ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:17 +0000
Subject: [PATCH 17/42] fix: leaving a nested ignored node doesn't end the
 surrounding ignore of the same rule

---
 crates/ludtwig/src/check/rule.rs              | 22 +++++++++++--------
 crates/ludtwig/src/check/rules/indentation.rs | 13 -----------
 2 files changed, 13 insertions(+), 22 deletions(-)

diff --git a/crates/ludtwig/src/check/rule.rs b/crates/ludtwig/src/check/rule.rs
index 4b3b1cf..d747f2c 100644
--- a/crates/ludtwig/src/check/rule.rs
+++ b/crates/ludtwig/src/check/rule.rs
@@ -107,19 +107,23 @@ impl<R: Rule> RuleExt for R {
     }
 
     fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
+        if has_ignore_directive_for_rule(n, self.name()) {
+            // this rule is no longer ignored, except a surrounding node is ignored as well
+            *is_ignored = n
+                .ancestors()
+                .skip(1)
+                .any(|a| has_ignore_directive_for_rule(&a, self.name()));
         }
     }
 }
 
+/// Does a `LudtwigDirectiveIgnore` targeting the given rule stand in front of this node?
+fn has_ignore_directive_for_rule(n: &SyntaxNode, rule_name: &str) -> bool {
+    n.prev_sibling()
+        .and_then(LudtwigDirectiveIgnore::cast)
+        .is_some_and(|directive| directive.get_rules().iter().any(|r| r == rule_name))
+}
+
 impl Debug for dyn Rule {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(f, "Rule<{}>", self.name())
diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index 065c92f..c87fee1 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -230,19 +230,6 @@ impl RuleIndentation {
         false
     }
 
-    fn check_for_rule_ignore_leave(&self, is_ignored: &mut bool, n: &SyntaxNode) {
-        if let Some(node) = n.prev_sibling() {
-            if let Some(directive) = LudtwigDirectiveIgnore::cast(node) {
-                let ignored_rules = directive.get_rules();
-
-                if ignored_rules.iter().any(|r| r == self.name()) {
-                    // this rule is no longer ignored
-                    *is_ignored = false;
-                }
-            }
-        }
-    }
-
     fn check_indentation_level(
         indentation_level: &mut usize,
         indent_block_children: bool,
-- 
2.43.0


From c02b7c3b09ada1e2d382de3957e1baa04875bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:21 +0000
Subject: [PATCH 18/42] fix: select non-overlapping suggestions per check
 result instead of failing on nested ones

---
 crates/ludtwig/src/check.rs   | 10 ++--
 crates/ludtwig/src/process.rs | 98 +++++++++++++++++++++++------------
 2 files changed, 70 insertions(+), 38 deletions(-)

diff --git a/crates/ludtwig/src/check.rs b/crates/ludtwig/src/check.rs
index 992fbf1..141e8db 100644
--- a/crates/ludtwig/src/check.rs
+++ b/crates/ludtwig/src/check.rs
@@ -175,16 +175,14 @@ pub fn is_trivia_sensitive(n: &SyntaxNode) -> bool {
     })
 }
 
+/// The rule name and suggestions of every check result that has suggestions
 pub fn get_rule_context_suggestions(
     check_results: &[CheckResult],
-) -> Vec<(&'static str, &CheckSuggestion)> {
+) -> impl Iterator<Item = (&'static str, Vec<&CheckSuggestion>)> {
     check_results
         .iter()
-        .flat_map(|res| {
-            let rule_name = res.rule_name;
-            res.suggestions.iter().map(move |sug| (rule_name, sug))
-        })
-        .collect()
+        .filter(|res| !res.suggestions.is_empty())
+        .map(|res| (res.rule_name, res.suggestions.iter().collect()))
 }
 
 pub fn produce_diagnostics(
diff --git a/crates/ludtwig/src/process.rs b/crates/ludtwig/src/process.rs
index 981b35f..48317ba 100644
--- a/crates/ludtwig/src/process.rs
+++ b/crates/ludtwig/src/process.rs
@@ -1,11 +1,11 @@
-use std::collections::HashSet;
+use std::collections::BTreeMap;
 use std::fs;
 use std::path::PathBuf;
 
 use codespan_reporting::term::termcolor::{BufferWriter, ColorChoice};
 
 use ludtwig_parser::ParseError;
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxNode, TextSize};
 
 use crate::CliContext;
 use crate::check::rule::{CheckResult, CheckSuggestion, Rule};
@@ -124,40 +124,11 @@ pub fn iteratively_apply_suggestions(
 
     // try at maximum 10 parsing iterations
     for iterations in 0_usize..10 {
-        let mut suggestions = get_rule_context_suggestions(&check_results);
+        let suggestions = get_non_overlapping_suggestions(&check_results)?;
         if suggestions.is_empty() {
             return Ok((file_context, check_results, dirty, iterations));
         }
 
-        // sort by syntax range
-        suggestions
-            .sort_by(|(_, sug_a), (_, sug_b)| sug_a.syntax_range.ordering(sug_b.syntax_range));
-
-        // filter out overlapping suggestions
-        let mut overlapping_rules = HashSet::new();
-        for ((rule_a, sug_a), (rule_b, sug_b)) in suggestions.iter().zip(suggestions.iter().skip(1))
-        {
-            if sug_a.syntax_range.ordering(sug_b.syntax_range).is_eq() {
-                if rule_a == rule_b {
-                    return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
-                        rule_name: (*rule_a).to_string(),
-                    });
-                }
-
-                overlapping_rules.insert(*rule_b);
-            }
-        }
-        let suggestions = suggestions
-            .into_iter()
-            .filter_map(|(rule, suggestion)| {
-                if overlapping_rules.contains(&rule) {
-                    return None;
-                }
-
-                Some(suggestion)
-            })
-            .collect();
-
         // transform source code according to non overlapping suggestions
         dirty = true;
         let source_code = apply_suggestions_to_text(suggestions, file_context.source_code);
@@ -181,6 +152,69 @@ pub fn iteratively_apply_suggestions(
     Err(FileProcessingError::MaxApplyIteration)
 }
 
+/// Select the suggestions that can be applied together, sorted by their syntax range.
+/// The suggestions of a single check result are only ever applied all at once,
+/// a check result that overlaps with another one is left for a later iteration.
+fn get_non_overlapping_suggestions(
+    check_results: &[CheckResult],
+) -> Result<Vec<&CheckSuggestion>, FileProcessingError> {
+    let mut candidates: Vec<Vec<&CheckSuggestion>> = vec![];
+    for (rule_name, mut suggestions) in get_rule_context_suggestions(check_results) {
+        suggestions.sort_by_key(|sug| suggestion_sort_key(sug));
+
+        if suggestions
+            .iter()
+            .zip(suggestions.iter().skip(1))
+            .any(|(sug_a, sug_b)| overlaps(sug_a, sug_b))
+        {
+            return Err(FileProcessingError::OverlappingSuggestionInSingleRule {
+                rule_name: rule_name.to_string(),
+            });
+        }
+
+        candidates.push(suggestions);
+    }
+    // sort by syntax range
+    candidates.sort_by_key(|suggestions| suggestion_sort_key(suggestions[0]));
+
+    let mut selected: BTreeMap<(TextSize, TextSize), &CheckSuggestion> = BTreeMap::new();
+    for suggestions in candidates {
+        let is_free = suggestions.iter().all(|sug| {
+            // the selected ones don't overlap, so only the direct neighbours are of interest
+            let key = suggestion_sort_key(sug);
+            let before = selected.range(..=key).next_back();
+            let after = selected.range(key..).next();
+            before
+                .into_iter()
+                .chain(after)
+                .all(|(_, other)| !overlaps(sug, other))
+        });
+
+        if is_free {
+            selected.extend(
+                suggestions
+                    .into_iter()
+                    .map(|sug| (suggestion_sort_key(sug), sug)),
+            );
+        }
+    }
+
+    Ok(selected.into_values().collect())
+}
+
+fn suggestion_sort_key(suggestion: &CheckSuggestion) -> (TextSize, TextSize) {
+    (
+        suggestion.syntax_range.start(),
+        suggestion.syntax_range.end(),
+    )
+}
+
+/// Touching ranges don't overlap, except for two insertions at the same place
+fn overlaps(a: &CheckSuggestion, b: &CheckSuggestion) -> bool {
+    let (a, b) = (a.syntax_range, b.syntax_range);
+    a == b || (a.start() < b.end() && b.start() < a.end())
+}
+
 fn apply_suggestions_to_text(
     suggestions: Vec<&CheckSuggestion>,
     mut source_code: String,
-- 
2.43.0


From c5677b24d0386953f6d3748187c983b5ce28a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:25 +0000
Subject: [PATCH 19/42] fix: exit with 1 when only errors without a scanned
 file were reported

---
 crates/ludtwig/src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/output.rs b/crates/ludtwig/src/output.rs
index e8a28d4..270da92 100644
--- a/crates/ludtwig/src/output.rs
+++ b/crates/ludtwig/src/output.rs
@@ -60,7 +60,7 @@ pub fn handle_processing_output(rx: &Receiver<ProcessingEvent>) -> i32 {
         (error_count + warning_count + help_count + info_count)
     );
 
-    if file_count > 0 && (error_count > 0 || warning_count > 0 || help_count > 0) {
+    if error_count > 0 || warning_count > 0 || help_count > 0 {
         io::stderr().write_all(conclusion_msg.as_bytes()).unwrap();
         1 // return exit code 1 if there were errors, warnings or help.
     } else {
-- 
2.43.0


From 6ba87704d76d0db88dd3ab7564c30a6470be794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:28 +0000
Subject: [PATCH 20/42] fix: whitespace-between-line-breaks keeps
 whitespace-sensitive content

---
 .../src/check/rules/whitespace_between_line_breaks.rs       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
index e35d248..2cb0640 100644
--- a/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
+++ b/crates/ludtwig/src/check/rules/whitespace_between_line_breaks.rs
@@ -9,12 +9,16 @@ impl Rule for RuleWhitespaceBetweenLineBreaks {
         "whitespace-between-line-breaks"
     }
 
-    fn check_token(&self, token: SyntaxToken, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
+    fn check_token(&self, token: SyntaxToken, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
         // rule only inspects line breaks
         if token.kind() != SyntaxKind::TK_LINE_BREAK {
             return None;
         }
 
+        if ctx.traversal_ctx().inside_trivia_sensitive_node {
+            return None; // no trivia modification allowed here
+        }
+
         let may_be_ws = token.next_token()?;
         if may_be_ws.kind() != SyntaxKind::TK_WHITESPACE {
             return None;
-- 
2.43.0


From b198a261bd1acb0ddc90075439acfd549f89a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:02 +0000
Subject: [PATCH 21/42] fix: separate operator words from operands that
 directly follow the replaced symbol

---
 crates/ludtwig/src/check/rules.rs             | 25 ++++++++++++++++++-
 .../ludtwig/src/check/rules/twig_logic_and.rs |  3 ++-
 .../ludtwig/src/check/rules/twig_logic_or.rs  |  3 ++-
 .../check/rules/twig_use_is_not_same_as.rs    |  7 +++++-
 .../src/check/rules/twig_use_is_same_as.rs    |  7 +++++-
 5 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig/src/check/rules.rs b/crates/ludtwig/src/check/rules.rs
index 726395e..8c31eae 100644
--- a/crates/ludtwig/src/check/rules.rs
+++ b/crates/ludtwig/src/check/rules.rs
@@ -24,7 +24,7 @@ use crate::check::rules::twig_variable_definition_naming::RuleTwigVariableDefini
 use crate::check::rules::whitespace_between_line_breaks::RuleWhitespaceBetweenLineBreaks;
 use crate::error::ConfigurationError;
 use ludtwig_parser::syntax::typed::{AstNode, LudtwigDirectiveFileIgnore};
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, SyntaxToken};
 
 mod html_attribute_name_kebab_case;
 mod html_duplicate_id;
@@ -138,6 +138,29 @@ pub fn get_file_active_rule_definitions(
         .collect()
 }
 
+/// The replacement for an operator token by an operator word, which (unlike a symbol) needs
+/// whitespace between itself and its operands.
+fn spaced_operator_word(operator: &SyntaxToken, word: &str) -> String {
+    let is_trivia = |t: &SyntaxToken| {
+        matches!(
+            t.kind(),
+            SyntaxKind::TK_WHITESPACE | SyntaxKind::TK_LINE_BREAK
+        )
+    };
+    let before = if operator.prev_token().is_none_or(|t| is_trivia(&t)) {
+        ""
+    } else {
+        " "
+    };
+    let after = if operator.next_token().is_none_or(|t| is_trivia(&t)) {
+        ""
+    } else {
+        " "
+    };
+
+    format!("{before}{word}{after}")
+}
+
 #[cfg(test)]
 pub mod test {
     use std::path::PathBuf;
diff --git a/crates/ludtwig/src/check/rules/twig_logic_and.rs b/crates/ludtwig/src/check/rules/twig_logic_and.rs
index 77dd1d0..e5b85db 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_and.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_and.rs
@@ -3,6 +3,7 @@ use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rules::spaced_operator_word;
 
 pub struct RuleTwigLogicAnd;
 
@@ -21,7 +22,7 @@ impl Rule for RuleTwigLogicAnd {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "and",
+                    spaced_operator_word(&binary_expr_op, "and"),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_logic_or.rs b/crates/ludtwig/src/check/rules/twig_logic_or.rs
index 7d151f9..55e5d85 100644
--- a/crates/ludtwig/src/check/rules/twig_logic_or.rs
+++ b/crates/ludtwig/src/check/rules/twig_logic_or.rs
@@ -3,6 +3,7 @@ use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rules::spaced_operator_word;
 
 pub struct RuleTwigLogicOr;
 
@@ -22,7 +23,7 @@ impl Rule for RuleTwigLogicOr {
                 .primary_note(binary_expr_op.text_range(), "help: change this operator")
                 .suggestion(
                     binary_expr_op.text_range(),
-                    "or",
+                    spaced_operator_word(&binary_expr_op, "or"),
                     "Try this operator instead",
                 );
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index 8dc0ede..2386cbf 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,4 +1,5 @@
 use crate::check::rule::{CheckResult, RuleExt, RuleRunContext};
+use crate::check::rules::spaced_operator_word;
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
@@ -29,7 +30,11 @@ impl Rule for RuleTwigUseIsNotSameAs {
         if let Some(rhs) = binary.rhs_expression() {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is not same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}({})",
+                    spaced_operator_word(&op, "is not same as").trim_end(),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index fda2aa9..777d737 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -3,6 +3,7 @@ use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
+use crate::check::rules::spaced_operator_word;
 
 pub struct RuleTwigUseIsSameAs;
 
@@ -29,7 +30,11 @@ impl Rule for RuleTwigUseIsSameAs {
         if let Some(rhs) = binary.rhs_expression() {
             result = result.suggestion(
                 op.text_range().cover(rhs.syntax().text_range()),
-                format!("is same as({})", rhs.syntax().text().to_string().trim()),
+                format!(
+                    "{}({})",
+                    spaced_operator_word(&op, "is same as").trim_end(),
+                    rhs.syntax().text().to_string().trim()
+                ),
                 "Try this instead",
             );
         }
-- 
2.43.0


From a72f831df33475875c9d8e287933e037d5e23a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:59 +0000
Subject: [PATCH 22/42] fix: keep the left side of a replaced === or !==
 together

---
 crates/ludtwig-parser/src/syntax/untyped.rs   |  6 +-
 crates/ludtwig/src/check/rules.rs             | 59 ++++++++++++++++++-
 .../check/rules/twig_use_is_not_same_as.rs    | 23 +++-----
 .../src/check/rules/twig_use_is_same_as.rs    | 23 +++-----
 4 files changed, 76 insertions(+), 35 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/untyped.rs b/crates/ludtwig-parser/src/syntax/untyped.rs
index 57d3eef..a6694c2 100644
--- a/crates/ludtwig-parser/src/syntax/untyped.rs
+++ b/crates/ludtwig-parser/src/syntax/untyped.rs
@@ -1014,15 +1014,17 @@ impl SyntaxNodeExt for SyntaxNode {
     fn text_range_trimmed_trivia(&self) -> TextRange {
         let mut range = self.text_range();
 
-        for element in self.children_with_tokens() {
+        for element in self.descendants_with_tokens() {
             match element {
+                // the trivia may belong to the first child node
+                SyntaxElement::Node(_) => {}
                 SyntaxElement::Token(t) if t.kind().is_trivia() => {
                     let new_start = range.start() + t.text_range().len();
                     if new_start < range.end() {
                         range = TextRange::new(new_start, range.end());
                     }
                 }
-                _ => return range,
+                SyntaxElement::Token(_) => return range,
             }
         }
 
diff --git a/crates/ludtwig/src/check/rules.rs b/crates/ludtwig/src/check/rules.rs
index 8c31eae..77cceb7 100644
--- a/crates/ludtwig/src/check/rules.rs
+++ b/crates/ludtwig/src/check/rules.rs
@@ -1,5 +1,5 @@
 use crate::Config;
-use crate::check::rule::Rule;
+use crate::check::rule::{CheckResult, Rule};
 use crate::check::rules::html_attribute_name_kebab_case::RuleHtmlAttributeNameKebabCase;
 use crate::check::rules::html_duplicate_id::RuleHtmlDuplicateId;
 use crate::check::rules::html_string_quotation::RuleHtmlStringQuotation;
@@ -23,8 +23,12 @@ use crate::check::rules::twig_valid_test::RuleTwigValidTest;
 use crate::check::rules::twig_variable_definition_naming::RuleTwigVariableDefinitionNaming;
 use crate::check::rules::whitespace_between_line_breaks::RuleWhitespaceBetweenLineBreaks;
 use crate::error::ConfigurationError;
-use ludtwig_parser::syntax::typed::{AstNode, LudtwigDirectiveFileIgnore};
-use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, SyntaxToken};
+use ludtwig_parser::syntax::typed::{
+    AstNode, LudtwigDirectiveFileIgnore, TwigBinaryExpression, TwigUnaryExpression, support,
+};
+use ludtwig_parser::syntax::untyped::{
+    SyntaxKind, SyntaxNode, SyntaxNodeExt, SyntaxToken, TextRange,
+};
 
 mod html_attribute_name_kebab_case;
 mod html_duplicate_id;
@@ -161,6 +165,55 @@ fn spaced_operator_word(operator: &SyntaxToken, word: &str) -> String {
     format!("{before}{word}{after}")
 }
 
+/// Add the suggestion to write the binary expression as a test with the right hand side as its
+/// argument. Tests bind stronger than comparisons, so a left hand side that is an
+/// operation itself is wrapped into parentheses to keep the operands together.
+fn suggest_test_instead(
+    result: CheckResult,
+    binary: &TwigBinaryExpression,
+    operator: &SyntaxToken,
+    test: &str,
+) -> CheckResult {
+    let Some(rhs) = binary.rhs_expression() else {
+        return result;
+    };
+
+    let result = result.suggestion(
+        operator.text_range().cover(rhs.syntax().text_range()),
+        format!(
+            "{}({})",
+            spaced_operator_word(operator, test).trim_end(),
+            rhs.syntax().text().to_string().trim()
+        ),
+        "Try this instead",
+    );
+
+    let Some(lhs) = binary.syntax().first_child() else {
+        return result;
+    };
+    let lhs_is_operation = matches!(
+        lhs.kind(),
+        SyntaxKind::TWIG_BINARY_EXPRESSION | SyntaxKind::TWIG_UNARY_EXPRESSION
+    ) || support::child::<TwigBinaryExpression>(&lhs).is_some()
+        || support::child::<TwigUnaryExpression>(&lhs).is_some();
+    if !lhs_is_operation {
+        return result;
+    }
+
+    let lhs_range = lhs.text_range_trimmed_trivia();
+    result
+        .suggestion(
+            TextRange::empty(lhs_range.start()),
+            "(",
+            "Keep the left side together",
+        )
+        .suggestion(
+            TextRange::empty(lhs_range.end()),
+            ")",
+            "Keep the left side together",
+        )
+}
+
 #[cfg(test)]
 pub mod test {
     use std::path::PathBuf;
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
index 2386cbf..903a98e 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_not_same_as.rs
@@ -1,5 +1,5 @@
 use crate::check::rule::{CheckResult, RuleExt, RuleRunContext};
-use crate::check::rules::spaced_operator_word;
+use crate::check::rules::suggest_test_instead;
 use crate::{Rule, Severity};
 use ludtwig_parser::T;
 use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
@@ -20,26 +20,19 @@ impl Rule for RuleTwigUseIsNotSameAs {
             return None;
         }
 
-        let mut result = self
+        let result = self
             .create_result(Severity::Error, "!== is not a valid twig operator")
             .primary_note(
                 op.text_range(),
                 "This is not a valid Twig operator, try 'is not same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
-            result = result.suggestion(
-                op.text_range().cover(rhs.syntax().text_range()),
-                format!(
-                    "{}({})",
-                    spaced_operator_word(&op, "is not same as").trim_end(),
-                    rhs.syntax().text().to_string().trim()
-                ),
-                "Try this instead",
-            );
-        }
-
-        Some(vec![result])
+        Some(vec![suggest_test_instead(
+            result,
+            &binary,
+            &op,
+            "is not same as",
+        )])
     }
 }
 
diff --git a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
index 777d737..3bcafda 100644
--- a/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
+++ b/crates/ludtwig/src/check/rules/twig_use_is_same_as.rs
@@ -3,7 +3,7 @@ use ludtwig_parser::syntax::typed::{AstNode, TwigBinaryExpression};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
-use crate::check::rules::spaced_operator_word;
+use crate::check::rules::suggest_test_instead;
 
 pub struct RuleTwigUseIsSameAs;
 
@@ -20,26 +20,19 @@ impl Rule for RuleTwigUseIsSameAs {
             return None;
         }
 
-        let mut result = self
+        let result = self
             .create_result(Severity::Error, "=== is not a valid twig operator")
             .primary_note(
                 op.text_range(),
                 "This is not a valid Twig operator, try 'is same as(condition)' instead",
             );
 
-        if let Some(rhs) = binary.rhs_expression() {
-            result = result.suggestion(
-                op.text_range().cover(rhs.syntax().text_range()),
-                format!(
-                    "{}({})",
-                    spaced_operator_word(&op, "is same as").trim_end(),
-                    rhs.syntax().text().to_string().trim()
-                ),
-                "Try this instead",
-            );
-        }
-
-        Some(vec![result])
+        Some(vec![suggest_test_instead(
+            result,
+            &binary,
+            &op,
+            "is same as",
+        )])
     }
 }
 
-- 
2.43.0


From 53320705ec34d0ffcd31d019173a0ae6cbc7bcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:56 +0000
Subject: [PATCH 23/42] fix: rename the block name behind endblock as well and
 only suggest usable block names

---
 .../check/rules/twig_block_name_snake_case.rs | 31 +++++++++++++++++--
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
index fcec3e8..a857e0f 100644
--- a/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_name_snake_case.rs
@@ -1,6 +1,7 @@
 use crate::check::naming_convention::{is_valid_ascii_alpha_snake_case, try_make_snake_case};
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
-use ludtwig_parser::syntax::typed::{AstNode, TwigStartingBlock};
+use ludtwig_parser::T;
+use ludtwig_parser::syntax::typed::{AstNode, TwigStartingBlock, support};
 use ludtwig_parser::syntax::untyped::SyntaxNode;
 
 pub struct RuleTwigBlockNameSnakeCase;
@@ -11,7 +12,8 @@ impl Rule for RuleTwigBlockNameSnakeCase {
     }
 
     fn check_node(&self, node: SyntaxNode, _ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        let block_name = TwigStartingBlock::cast(node)?.name()?;
+        let starting_block = TwigStartingBlock::cast(node)?;
+        let block_name = starting_block.name()?;
         if !is_valid_ascii_alpha_snake_case(block_name.text(), false) {
             // name is not valid ascii snake case
             let mut result = self
@@ -22,7 +24,23 @@ impl Rule for RuleTwigBlockNameSnakeCase {
                 );
 
             // try make a suggestion
-            if let Some(suggested_name) = try_make_snake_case(block_name.text(), false) {
+            if let Some(suggested_name) =
+                try_make_snake_case(block_name.text(), false).filter(|n| is_usable_block_name(n))
+            {
+                // the name can be repeated behind endblock
+                let ending_name = starting_block
+                    .twig_block()
+                    .and_then(|b| b.ending_block())
+                    .and_then(|b| support::token(b.syntax(), T![word]))
+                    .filter(|t| t.text() == block_name.text());
+                if let Some(ending_name) = ending_name {
+                    result = result.suggestion(
+                        ending_name.text_range(),
+                        suggested_name.clone(),
+                        "Try this name instead",
+                    );
+                }
+
                 result = result.suggestion(
                     block_name.text_range(),
                     suggested_name,
@@ -36,6 +54,13 @@ impl Rule for RuleTwigBlockNameSnakeCase {
     }
 }
 
+/// Not every snake_case word can be used as a name, e.g. "" or keywords like "if" can't
+fn is_usable_block_name(name: &str) -> bool {
+    ludtwig_parser::parse(&format!("{{% block {name} %}}{{% endblock %}}"))
+        .errors
+        .is_empty()
+}
+
 #[cfg(test)]
 mod tests {
     use expect_test::expect;
-- 
2.43.0


From 92b895a1ab9e531ab0fd367f862d062ed34d2184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 24/42] fix: no minus between the prefix of an attribute name
 and its first letter

---
 crates/ludtwig/src/check/naming_convention.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/naming_convention.rs b/crates/ludtwig/src/check/naming_convention.rs
index cba14c6..4af03f5 100644
--- a/crates/ludtwig/src/check/naming_convention.rs
+++ b/crates/ludtwig/src/check/naming_convention.rs
@@ -151,8 +151,8 @@ pub fn try_make_kebab_case(original: &str) -> Option<String> {
             continue;
         }
 
-        // make an minus before each uppercase and replace it with lowercase
-        if c.is_ascii_uppercase() {
+        // make an minus before each uppercase (except behind a special prefix) and replace it with lowercase
+        if c.is_ascii_uppercase() && !attempt.ends_with([':', '@', '#']) {
             attempt.push('-');
         }
 
-- 
2.43.0


From 5c47af21123a82e20a3e68d849e7e6a7c7fe0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:34 +0000
Subject: [PATCH 25/42] fix: keep the quotes of hash keys that the lexer has no
 word for

---
 .../src/check/rules/twig_hash_key_no_quotes.rs        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs b/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
index ad20a0d..a51bec2 100644
--- a/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
+++ b/crates/ludtwig/src/check/rules/twig_hash_key_no_quotes.rs
@@ -1,6 +1,6 @@
 use ludtwig_parser::TWIG_NAME_REGEX;
 use ludtwig_parser::syntax::typed::{AstNode, TwigLiteralHashKey, TwigLiteralString, support};
-use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, SyntaxNodeExt, TextRange, TextSize};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -22,7 +22,14 @@ impl Rule for RuleTwigHashKeyNoQuotes {
         let key_string_matches_twig_word_regex =
             TWIG_NAME_REGEX.is_match(&key_string_inner.syntax().text().to_string());
 
-        if key_only_contains_one_element && key_string_matches_twig_word_regex {
+        // characters unknown to the lexer (e.g. umlauts) only work inside of quotes
+        let key_is_known_token = key_string_inner
+            .syntax()
+            .first_token()
+            .is_some_and(|t| t.kind() != SyntaxKind::TK_UNKNOWN);
+
+        if key_only_contains_one_element && key_is_known_token && key_string_matches_twig_word_regex
+        {
             let result = self
                 .create_result(Severity::Help, "unnecessary quotation")
                 .primary_note(
-- 
2.43.0


From 254da676f3eba26681d8f0271e0b720140dbf8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 26/42] fix: replace the parentheses of a raw() after
 json_encode as well

---
 crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
index 0a4ec0f..88824d6 100644
--- a/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
+++ b/crates/ludtwig/src/check/rules/twig_json_encode_escape_js.rs
@@ -1,5 +1,5 @@
 use ludtwig_parser::syntax::typed::{AstNode, TwigFilter, TwigLiteralName, support};
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxNodeExt};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -36,7 +36,8 @@ impl Rule for RuleTwigJsonEncodeEscapeJs {
                 "help: replace 'raw' with escape('js')",
             )
             .suggestion(
-                right_name_token.text_range(),
+                // the empty arguments of a 'raw()' are replaced as well
+                right_operand.syntax().text_range_trimmed_trivia(),
                 "escape('js')",
                 "Try this filter instead",
             );
-- 
2.43.0


From 6297dd84699618ca1987a192d5b1779736f841ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:02 +0000
Subject: [PATCH 27/42] fix: put a missing opening quote directly in front of
 the attribute value

---
 crates/ludtwig/src/check/rules/html_string_quotation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index 44ced4e..36711fa 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -63,7 +63,10 @@ pub fn make_changed_quotes_suggestion_if_possible(
         }
         _ => {
             result = result.suggestion(
-                TextRange::at(inner.syntax().text_range().start(), TextSize::from(0)),
+                TextRange::at(
+                    inner.syntax().text_range_trimmed_trivia().start(),
+                    TextSize::from(0),
+                ),
                 correct_quote,
                 "Try this quote instead",
             );
-- 
2.43.0


From d17a03781940757e5d09afcc41dcb7beefa709fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:10 +0000
Subject: [PATCH 28/42] fix: count all line breaks around a block when blanks
 stand next to them

---
 .../src/check/rules/twig_block_line_breaks.rs | 35 +++++++++++++++----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_block_line_breaks.rs b/crates/ludtwig/src/check/rules/twig_block_line_breaks.rs
index 3c64fd2..c2838bf 100644
--- a/crates/ludtwig/src/check/rules/twig_block_line_breaks.rs
+++ b/crates/ludtwig/src/check/rules/twig_block_line_breaks.rs
@@ -1,5 +1,5 @@
 use ludtwig_parser::syntax::typed::{AstNode, TwigBlock};
-use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, TextRange, TextSize};
+use ludtwig_parser::syntax::untyped::{SyntaxKind, SyntaxNode, SyntaxToken, TextRange, TextSize};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -121,17 +121,17 @@ impl Rule for RuleTwigBlockLineBreaks {
 
         let mut results = vec![];
         for (token, expected_str, line_break_amount) in validate_iter {
-            if token.kind() == SyntaxKind::TK_LINE_BREAK {
-                // validate existing line break
-                if token.text() != expected_str {
+            if let Some((range, text)) = leading_line_breaks(&token) {
+                // validate existing line breaks
+                if text != expected_str {
                     let result = self
                         .create_result(Severity::Help, "Wrong line break around block")
                         .primary_note(
-                            token.text_range(),
+                            range,
                             format!("Expected {line_break_amount} line breaks here"),
                         )
                         .suggestion(
-                            token.text_range(),
+                            range,
                             expected_str.clone(),
                             format!("Change to {line_break_amount} line breaks"),
                         );
@@ -166,6 +166,29 @@ impl Rule for RuleTwigBlockLineBreaks {
     }
 }
 
+/// The range and text from the first to the last line break of the trivia starting with this token,
+/// including blanks in between (those belong to lines without any content)
+fn leading_line_breaks(first_token: &SyntaxToken) -> Option<(TextRange, String)> {
+    let trivia: Vec<SyntaxToken> =
+        std::iter::successors(Some(first_token.clone()), SyntaxToken::next_token)
+            .take_while(|t| {
+                matches!(
+                    t.kind(),
+                    SyntaxKind::TK_WHITESPACE | SyntaxKind::TK_LINE_BREAK
+                )
+            })
+            .collect();
+    let is_line_break = |t: &SyntaxToken| t.kind() == SyntaxKind::TK_LINE_BREAK;
+    let first = trivia.iter().position(is_line_break)?;
+    let last = trivia.iter().rposition(is_line_break)?;
+    let tokens = &trivia[first..=last];
+
+    Some((
+        tokens[0].text_range().cover(trivia[last].text_range()),
+        tokens.iter().map(SyntaxToken::text).collect(),
+    ))
+}
+
 #[cfg(test)]
 mod tests {
     use expect_test::expect;
-- 
2.43.0


From 8040f014a6a3c57081ec1a76a88514f6cba3d483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:04 +0000
Subject: [PATCH 29/42] fix: an indentation count of zero is no missing
 indentation

---
 crates/ludtwig/src/check/rules/indentation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/indentation.rs b/crates/ludtwig/src/check/rules/indentation.rs
index c87fee1..8d82c6c 100644
--- a/crates/ludtwig/src/check/rules/indentation.rs
+++ b/crates/ludtwig/src/check/rules/indentation.rs
@@ -174,7 +174,7 @@ impl RuleIndentation {
                 }
             }
             _ => {
-                if indentation_level > 0 || indentation_substeps > 0 {
+                if !expected_str.is_empty() {
                     // report missing whitespace token
                     let range = TextRange::at(token.text_range().start(), TextSize::from(0));
                     let result = self
-- 
2.43.0


From f6b31489ab05fdab95bbf21b8159453ae90c9c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:15 +0000
Subject: [PATCH 30/42] fix: check the first filter of an apply tag against the
 valid filters

---
 .../src/check/rules/twig_valid_filter.rs      | 42 ++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/twig_valid_filter.rs b/crates/ludtwig/src/check/rules/twig_valid_filter.rs
index f5fc380..1fecdad 100644
--- a/crates/ludtwig/src/check/rules/twig_valid_filter.rs
+++ b/crates/ludtwig/src/check/rules/twig_valid_filter.rs
@@ -1,7 +1,8 @@
 use ludtwig_parser::syntax::typed::{
-    AstNode, TwigFilter, TwigFunctionCall, TwigLiteralName, support,
+    AstNode, TwigApplyStartingBlock, TwigFilter, TwigFunctionCall, TwigLiteralName, TwigOperand,
+    support,
 };
-use ludtwig_parser::syntax::untyped::SyntaxNode;
+use ludtwig_parser::syntax::untyped::{SyntaxNode, SyntaxToken};
 
 use crate::check::rule::{CheckResult, Rule, RuleExt, RuleRunContext, Severity};
 
@@ -13,20 +14,10 @@ impl Rule for RuleTwigValidFilter {
     }
 
     fn check_node(&self, node: SyntaxNode, ctx: &RuleRunContext) -> Option<Vec<CheckResult>> {
-        let filter = TwigFilter::cast(node)?;
-        let right_operand = filter.filter()?;
-
-        // Filter name can be a plain TwigLiteralName or inside a TwigFunctionCall (when filter has args)
-        let name_token = if let Some(name_node) =
-            support::child::<TwigLiteralName>(right_operand.syntax())
-        {
-            name_node.get_name()?
-        } else if let Some(func_call) = support::child::<TwigFunctionCall>(right_operand.syntax()) {
-            let name_operand = func_call.name_operand()?;
-            let name_node: TwigLiteralName = support::child(name_operand.syntax())?;
-            name_node.get_name()?
+        let name_token = if let Some(filter) = TwigFilter::cast(node.clone()) {
+            filter_name(&filter.filter()?)?
         } else {
-            return None;
+            first_apply_filter_name(&TwigApplyStartingBlock::cast(node)?)?
         };
 
         let filter_name = name_token.text();
@@ -50,6 +41,27 @@ impl Rule for RuleTwigValidFilter {
     }
 }
 
+/// The name of the filter inside of the right operand of a pipe (with or without arguments)
+fn filter_name(operand: &TwigOperand) -> Option<SyntaxToken> {
+    if let Some(name_node) = support::child::<TwigLiteralName>(operand.syntax()) {
+        return name_node.get_name();
+    }
+
+    let func_call: TwigFunctionCall = support::child(operand.syntax())?;
+    let name_operand = func_call.name_operand()?;
+    let name_node: TwigLiteralName = support::child(name_operand.syntax())?;
+    name_node.get_name()
+}
+
+/// The first filter of `{% apply first|second %}` is not on the right side of any pipe
+fn first_apply_filter_name(block: &TwigApplyStartingBlock) -> Option<SyntaxToken> {
+    let mut parent = block.syntax().clone();
+    while let Some(filter) = support::child::<TwigFilter>(&parent) {
+        parent = filter.operand()?.syntax().clone();
+    }
+    support::child::<TwigLiteralName>(&parent)?.get_name()
+}
+
 #[cfg(test)]
 mod tests {
     use expect_test::expect;
-- 
2.43.0


From 2bff18f977d405c9f3c8a4407dc245d5a9dcdefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:32 +0000
Subject: [PATCH 31/42] fix: compare unquoted ids without the whitespace in
 front of them

---
 crates/ludtwig/src/check/rules/html_duplicate_id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/check/rules/html_duplicate_id.rs b/crates/ludtwig/src/check/rules/html_duplicate_id.rs
index 57705be..1c335a8 100644
--- a/crates/ludtwig/src/check/rules/html_duplicate_id.rs
+++ b/crates/ludtwig/src/check/rules/html_duplicate_id.rs
@@ -52,7 +52,11 @@ impl Rule for RuleHtmlDuplicateId {
                         continue;
                     }
 
-                    let id_text = inner.syntax().text().to_string();
+                    let mut id_text = inner.syntax().text().to_string();
+                    if value.get_opening_quote().is_none() {
+                        // whitespace in front of an unquoted value doesn't belong to it
+                        id_text = id_text.trim().to_owned();
+                    }
                     if id_text.is_empty() {
                         continue;
                     }
-- 
2.43.0


From 3f123e1c97af43d4e1064d1b4e51bd49c3c459a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 32/42] fix: find the tag of attributes nested in twig blocks
 of an attribute list

---
 crates/ludtwig-parser/src/syntax/typed.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/ludtwig-parser/src/syntax/typed.rs b/crates/ludtwig-parser/src/syntax/typed.rs
index cffe2cd..eb97617 100644
--- a/crates/ludtwig-parser/src/syntax/typed.rs
+++ b/crates/ludtwig-parser/src/syntax/typed.rs
@@ -273,11 +273,9 @@ impl HtmlAttribute {
     /// Parent starting html tag
     #[must_use]
     pub fn html_tag(&self) -> Option<HtmlStartingTag> {
-        // first parent is HtmlAttributeList, the parent of that is the tag itself
-        self.syntax
-            .parent()?
-            .parent()
-            .and_then(HtmlStartingTag::cast)
+        // usually the parent of the HtmlAttributeList,
+        // but the attribute can also be nested inside of twig blocks in that list
+        self.syntax.ancestors().find_map(HtmlStartingTag::cast)
     }
 }
 
-- 
2.43.0


From 5d0701529fed23c45146fff3b3e71994a8836040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 33/42] fix: don't suggest quotes for a missing attribute value

---
 .../ludtwig/src/check/rules/html_string_quotation.rs   | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ludtwig/src/check/rules/html_string_quotation.rs b/crates/ludtwig/src/check/rules/html_string_quotation.rs
index 36711fa..0461337 100644
--- a/crates/ludtwig/src/check/rules/html_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/html_string_quotation.rs
@@ -57,16 +57,18 @@ pub fn make_changed_quotes_suggestion_if_possible(
     }
 
     // opening quote
+    let inner_range = inner.syntax().text_range_trimmed_trivia();
+    if twig_string.get_opening_quote().is_none() && inner_range.is_empty() {
+        return result; // there is no value that could be quoted (syntax error)
+    }
+
     match twig_string.get_opening_quote() {
         Some(quote) => {
             result = result.suggestion(quote.text_range(), correct_quote, "Try this quote instead");
         }
         _ => {
             result = result.suggestion(
-                TextRange::at(
-                    inner.syntax().text_range_trimmed_trivia().start(),
-                    TextSize::from(0),
-                ),
+                TextRange::at(inner_range.start(), TextSize::from(0)),
                 correct_quote,
                 "Try this quote instead",
             );
-- 
2.43.0


From d6a95eae0c6f4d998582ac66c7a27cf2f86f4aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 34/42] fix: don't load a config file of a parent directory
 when none is at the config path

---
 crates/ludtwig/src/config.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 65d2313..47a84e9 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -141,13 +141,16 @@ pub const LUDTWIG_VERSION: &str = env!("CARGO_PKG_VERSION");
 impl Config {
     #[allow(clippy::result_large_err)]
     pub fn new<P: AsRef<Path>>(path: P) -> Result<Self, figment::Error> {
-        let config: Config = Figment::new()
-            // first read the raw config from memory (for default values)
-            .merge(Toml::string(
-                &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
-            ))
-            // then read the config in the file system (if it exists)
-            .merge(Toml::file(path))
+        // first read the raw config from memory (for default values)
+        let mut figment = Figment::new().merge(Toml::string(
+            &DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION),
+        ));
+        // then read the config in the file system (if it exists, parent directories aren't searched)
+        if path.as_ref().is_file() {
+            figment = figment.merge(Toml::file_exact(path));
+        }
+
+        let config: Config = figment
             // last read from the environment
             .merge(
                 Env::prefixed("LUDTWIG_")
-- 
2.43.0


From cf84ff5e6bace22cec2f8f592092c51cda1f886b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 35/42] fix: report an unwritable config path instead of
 panicking

---
 crates/ludtwig/src/config.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig/src/config.rs b/crates/ludtwig/src/config.rs
index 47a84e9..73af468 100644
--- a/crates/ludtwig/src/config.rs
+++ b/crates/ludtwig/src/config.rs
@@ -180,7 +180,13 @@ pub fn handle_config_or_exit(opts: &Opts) -> Config {
         }
 
         let config_raw = DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION);
-        std::fs::write(&config_path, config_raw).expect("can't write default config");
+        if let Err(e) = std::fs::write(&config_path, config_raw) {
+            eprintln!(
+                "Error: can't write the default config to {}: {e}",
+                config_path.display()
+            );
+            std::process::exit(1);
+        }
         println!(
             "Default config was written to {}",
             config_path.to_string_lossy()
-- 
2.43.0


From 2e85c11772973a88105177ebac1c8756b96d72e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:51 +0000
Subject: [PATCH 36/42] fix: walk every given path with a walker of its own

---
 crates/ludtwig/src/main.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/crates/ludtwig/src/main.rs b/crates/ludtwig/src/main.rs
index ee4d269..1251096 100644
--- a/crates/ludtwig/src/main.rs
+++ b/crates/ludtwig/src/main.rs
@@ -12,8 +12,9 @@ use crate::check::rules::get_config_active_rule_definitions;
 use crate::config::Config;
 use crate::output::ProcessingEvent;
 use clap::Parser;
-use ignore::types::TypesBuilder;
+use ignore::types::{Types, TypesBuilder};
 use ignore::{WalkBuilder, WalkState};
+use rayon::prelude::*;
 use std::path::{Path, PathBuf};
 use std::sync::mpsc::Sender;
 use std::sync::{Arc, mpsc};
@@ -131,7 +132,11 @@ fn app(opts: Opts, config: Config) -> i32 {
     let output_handler = thread::spawn(move || output::handle_processing_output(&rx));
 
     // work on each user specified file / directory path concurrently
-    handle_input_paths(opts.files, cli_context.clone());
+    // (each with its own walker, one for multiple paths mixes up the ignore files of their parent directories)
+    let types = select_file_types();
+    opts.files
+        .into_par_iter()
+        .for_each(|path| handle_input_path(&path, types.clone(), cli_context.clone()));
 
     drop(cli_context); // drop this tx channel
 
@@ -141,19 +146,22 @@ fn app(opts: Opts, config: Config) -> i32 {
         .expect("Error: can't join output_handler thread")
 }
 
-/// Process a directory path.
-fn handle_input_paths(paths: Vec<PathBuf>, cli_context: CliContext) {
-    let types = TypesBuilder::new()
+/// The file types to look for in directories.
+fn select_file_types() -> Types {
+    TypesBuilder::new()
         .add_defaults()
         .select("twig")
         .select("html")
         .build()
-        .unwrap();
+        .unwrap()
+}
 
-    // create walker over all the user specified paths
-    let mut walker = WalkBuilder::new(&paths[0]);
-    for path in paths.into_iter().skip(1) {
-        walker.add(path);
+/// Process a file or directory path.
+fn handle_input_path(path: &Path, types: Types, cli_context: CliContext) {
+    // create walker over the user specified path
+    let mut walker = WalkBuilder::new(path);
+    if !path.is_dir() {
+        walker.threads(1); // nothing to walk over in parallel
     }
 
     let walker = walker
-- 
2.43.0


From 4abed2a0e21bd04250b9bfed3b9863abde88925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:25 +0000
Subject: [PATCH 37/42] fix: report branches after the else branch of an if

---
 crates/ludtwig-parser/src/grammar/twig/tags.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/ludtwig-parser/src/grammar/twig/tags.rs b/crates/ludtwig-parser/src/grammar/twig/tags.rs
index bf7a443..cebab5d 100644
--- a/crates/ludtwig-parser/src/grammar/twig/tags.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/tags.rs
@@ -1270,6 +1270,7 @@ fn parse_twig_if(
     let wrapper_m = parser.precede(wrapper_m);
 
     // parse branches
+    let mut had_else = false;
     loop {
         // parse body (all the children)
         let body_m = parser.start();
@@ -1290,6 +1291,11 @@ fn parse_twig_if(
             break; // no more branches
         }
 
+        // nothing but the end is allowed after the else branch
+        if had_else && (parser.at_twig_tag(T!["elseif"]) || parser.at_twig_tag(T!["else"])) {
+            parser.add_error(ParseErrorBuilder::new("endif"));
+        }
+
         // parse next branch header
         if parser.at_twig_tag(T!["elseif"]) {
             let branch_m = parser.start();
@@ -1305,6 +1311,7 @@ fn parse_twig_if(
             );
             parser.complete(branch_m, SyntaxKind::TWIG_ELSE_IF_BLOCK);
         } else if parser.at_twig_tag(T!["else"]) {
+            had_else = true;
             let branch_m = parser.start();
             parser.bump();
             parser.bump();
-- 
2.43.0


From 1685a0e58076d44b467778ad41cbd7b4bb4c2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:40 +0000
Subject: [PATCH 38/42] fix: report named arguments without a value

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 353fb01..246e994 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -473,7 +473,10 @@ pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<Comple
         let named_arg_m = parser.start();
         parser.bump_as(T![word]); // keywords are also valid argument names
         parser.expect(T!["="], TWIG_EXPRESSION_RECOVERY_SET);
-        parse_twig_expression(parser);
+        if parse_twig_expression(parser).is_none() {
+            parser.add_error(ParseErrorBuilder::new("value as twig expression"));
+            parser.recover(TWIG_EXPRESSION_RECOVERY_SET);
+        }
         Some(parser.complete(named_arg_m, SyntaxKind::TWIG_NAMED_ARGUMENT))
     } else {
         parse_twig_expression(parser)
-- 
2.43.0


From f2dab777fa781c4feadc181c34ec9e75f7814759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:11 +0000
Subject: [PATCH 39/42] fix: report missing arguments and hash pairs in front
 of a comma

---
 crates/ludtwig-parser/src/grammar/twig/expression.rs |  4 +++-
 crates/ludtwig-parser/src/grammar/twig/literal.rs    | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/expression.rs b/crates/ludtwig-parser/src/grammar/twig/expression.rs
index 5895277..a9821d2 100644
--- a/crates/ludtwig-parser/src/grammar/twig/expression.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/expression.rs
@@ -325,7 +325,9 @@ fn parse_paren_arrow_function(parser: &mut Parser, m: Marker) -> CompletedMarker
         |p| p.at(T![")"]),
         |p| {
             p.expect(T![","], TWIG_EXPRESSION_RECOVERY_SET);
-            parse_twig_name(p);
+            if parse_twig_name(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("twig variable as function argument"));
+            }
         },
     );
 
diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index 246e994..bd25aa3 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -197,7 +197,9 @@ pub(crate) fn parse_twig_hash(parser: &mut Parser) -> CompletedMarker {
         parser,
         |p| p.at(T!["}"]),
         |p| {
-            parse_twig_hash_pair(p);
+            if parse_twig_hash_pair(p).is_none() && p.at(T![","]) {
+                p.add_error(ParseErrorBuilder::new("hash key"));
+            }
 
             if p.at(T![","]) {
                 // consume separator
@@ -479,7 +481,11 @@ pub(crate) fn parse_twig_function_argument(parser: &mut Parser) -> Option<Comple
         }
         Some(parser.complete(named_arg_m, SyntaxKind::TWIG_NAMED_ARGUMENT))
     } else {
-        parse_twig_expression(parser)
+        let argument = parse_twig_expression(parser);
+        if argument.is_none() && parser.at(T![","]) {
+            parser.add_error(ParseErrorBuilder::new("twig expression"));
+        }
+        argument
     }
 }
 
-- 
2.43.0


From f48a03f0412d13c714e9c4f6778f39fb60eb1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 40/42] fix: keep a self-closing tag closed when its attributes
 are invalid

---
 crates/ludtwig-parser/src/grammar/html.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/html.rs b/crates/ludtwig-parser/src/grammar/html.rs
index 5081542..bb5b78f 100644
--- a/crates/ludtwig-parser/src/grammar/html.rs
+++ b/crates/ludtwig-parser/src/grammar/html.rs
@@ -216,8 +216,12 @@ fn parse_html_element(parser: &mut Parser) -> CompletedMarker {
         parser.bump();
         true
     } else {
-        parser.expect(T![">"], &[T!["</"], T![word], T![">"]]);
-        false
+        parser.expect(T![">"], &[T!["</"], T!["/>"]]);
+        let self_closing = parser.at(T!["/>"]); // behind invalid attributes
+        if self_closing {
+            parser.bump();
+        }
+        self_closing
     };
 
     if HTML_VOID_ELEMENTS.contains(&&*tag_name_lowercase) {
-- 
2.43.0


From 4cb8b4d82b1eff675b55be8fc4efe03497275c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 41/42] fix: accept '#{' as plain text inside of single quoted
 twig strings

---
 crates/ludtwig-parser/src/grammar/twig/literal.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/ludtwig-parser/src/grammar/twig/literal.rs b/crates/ludtwig-parser/src/grammar/twig/literal.rs
index bd25aa3..2fc0e33 100644
--- a/crates/ludtwig-parser/src/grammar/twig/literal.rs
+++ b/crates/ludtwig-parser/src/grammar/twig/literal.rs
@@ -82,16 +82,12 @@ fn parse_twig_number(parser: &mut Parser) -> CompletedMarker {
 
 pub(crate) fn parse_twig_string(
     parser: &mut Parser,
-    mut interpolation_allowed: bool,
+    interpolation_allowed: bool,
 ) -> CompletedMarker {
     debug_assert!(parser.at_set(&[T!["\""], T!["'"]]));
     let m = parser.start();
     let starting_quote_token = parser.bump();
     let quote_kind = starting_quote_token.kind;
-    interpolation_allowed = match quote_kind {
-        T!["\""] => interpolation_allowed,
-        _ => false, // interpolation only allowed in double quoted strings,
-    };
 
     let m_inner = parser.start();
     parse_many(
@@ -106,7 +102,8 @@ pub(crate) fn parse_twig_string(
                 // escaped quote, backslash or hashtag should be consumed
                 p.bump();
                 p.bump();
-            } else if p.at(T!["#"]) && next_kind == Some(T!["{"]) {
+            } else if quote_kind == T!["\""] && p.at(T!["#"]) && next_kind == Some(T!["{"]) {
+                // single quoted strings are always plain text
                 if !interpolation_allowed {
                     let opening_token = p.bump();
                     let interpolation_error = ParseErrorBuilder::new(
-- 
2.43.0


From 45e56ab57c0bc3ff54a025cdedacbd3c253794a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 42/42] fix: don't suggest double quotes for strings that would
 become interpolated

---
 crates/ludtwig/src/check/rules/twig_string_quotation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ludtwig/src/check/rules/twig_string_quotation.rs b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
index 00d8676..f16b3c5 100644
--- a/crates/ludtwig/src/check/rules/twig_string_quotation.rs
+++ b/crates/ludtwig/src/check/rules/twig_string_quotation.rs
@@ -67,6 +67,9 @@ pub fn make_changed_quotes_suggestion_if_possible(
     if inner_text.contains_char(correct_quote) {
         return result; // TODO: could still try to transform the string with more effort...
     }
+    if correct_quote == '"' && inner_text.to_string().contains("#{") {
+        return result; // would become a string interpolation
+    }
 
     // opening quote
     match twig_string.get_opening_quote() {
-- 
2.43.0

