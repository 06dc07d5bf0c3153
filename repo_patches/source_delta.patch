From 539a114e3d5d56668dfa6062c673eef74f88e418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 01/17] fix: lex nested filters, NUL, uppercase exponents and
 leading zeros

---
 crates/jsonpath_rfc9535/src/lexer.rs | 89 ++++++++++++++++++----------
 1 file changed, 57 insertions(+), 32 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index f0e7828..9b5a264 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -117,7 +117,14 @@ struct Lexer<'q> {
     start: usize,
     pos: usize,
 
-    filter_depth: u32,
+    brackets: Vec<Bracket>,
+}
+
+/// An open bracketed selection.
+#[derive(Default)]
+struct Bracket {
+    /// The number of unbalanced parens in each open function call, for the
+    /// filter selector at the end of this bracketed selection, if any.
     paren_stack: Vec<u32>,
 }
 
@@ -129,8 +136,7 @@ impl<'q> Lexer<'q> {
             start: 0,
             pos: 0,
             chars: query.char_indices(),
-            filter_depth: 0,
-            paren_stack: Vec::new(),
+            brackets: Vec::new(),
         }
     }
 
@@ -204,6 +210,25 @@ impl<'q> Lexer<'q> {
         }
     }
 
+    fn at_end(&self) -> bool {
+        self.chars.as_str().is_empty()
+    }
+
+    /// Unbalanced parens in open function calls, innermost function call last.
+    fn paren_stack(&mut self) -> Option<&mut Vec<u32>> {
+        self.brackets.last_mut().map(|b| &mut b.paren_stack)
+    }
+
+    fn accept_lbracket(&mut self) -> bool {
+        if self.accept('[') {
+            self.emit(TokenType::LBracket);
+            self.brackets.push(Bracket::default());
+            true
+        } else {
+            false
+        }
+    }
+
     fn accept(&mut self, ch: char) -> bool {
         if self.peek() == ch {
             self.next();
@@ -288,7 +313,7 @@ fn lex_root(l: &mut Lexer) -> State {
 }
 
 fn lex_segment(l: &mut Lexer) -> State {
-    if l.ignore_whitespace() && l.peek() == EOQ {
+    if l.ignore_whitespace() && l.at_end() && l.brackets.is_empty() {
         return l.error(String::from("unexpected trailing whitespace"));
     }
 
@@ -299,13 +324,11 @@ fn lex_segment(l: &mut Lexer) -> State {
         } else {
             State::LexShorthandSegment
         }
-    } else if l.accept('[') {
-        l.emit(TokenType::LBracket);
+    } else if l.accept_lbracket() {
         State::LexInsideBracketedSegment
-    } else if l.filter_depth > 0 {
+    } else if !l.brackets.is_empty() {
         State::LexInsideFilter
-    } else if l.peek() == EOQ {
-        l.next();
+    } else if l.at_end() {
         l.emit(TokenType::Eoq);
         State::EndOfQuery
     } else {
@@ -321,8 +344,7 @@ fn lex_descendant_segment(l: &mut Lexer) -> State {
     if l.accept('*') {
         l.emit(TokenType::Wild);
         State::LexSegment
-    } else if l.accept('[') {
-        l.emit(TokenType::LBracket);
+    } else if l.accept_lbracket() {
         State::LexInsideBracketedSegment
     } else if l.accept_if(is_name_first) {
         l.accept_run(is_name_char);
@@ -371,11 +393,8 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         ']' => {
             l.next();
             l.emit(TokenType::RBracket);
-            if l.filter_depth > 0 {
-                State::LexInsideFilter
-            } else {
-                State::LexSegment
-            }
+            l.brackets.pop();
+            State::LexSegment
         }
         '*' => {
             l.next();
@@ -385,7 +404,6 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
         '?' => {
             l.next();
             l.emit(TokenType::Filter);
-            l.filter_depth += 1;
             State::LexInsideFilter
         }
         ',' => {
@@ -422,7 +440,7 @@ fn lex_inside_bracketed_segment(l: &mut Lexer) -> State {
                 l.error(msg)
             }
         }
-        EOQ => l.error(String::from("unclosed bracketed selection")),
+        EOQ if l.at_end() => l.error(String::from("unclosed bracketed selection")),
         _ => {
             if l.accept_run(is_digit) {
                 l.emit(TokenType::Index {
@@ -444,10 +462,9 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
     l.ignore_whitespace();
 
     match l.peek() {
-        EOQ => l.error(String::from("unclosed bracketed selection")),
+        EOQ if l.at_end() => l.error(String::from("unclosed bracketed selection")),
         ']' => {
-            l.filter_depth -= 1;
-            if l.paren_stack.len() == 1 {
+            if l.paren_stack().is_some_and(|stack| !stack.is_empty()) {
                 l.error(String::from("unbalanced parentheses"))
             } else {
                 State::LexInsideBracketedSegment
@@ -458,10 +475,9 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.emit(TokenType::Comma);
             // If we have unbalanced parens, we are inside a function call and a
             // comma separates arguments. Otherwise a comma separates selectors.
-            if !l.paren_stack.is_empty() {
+            if l.paren_stack().is_some_and(|stack| !stack.is_empty()) {
                 State::LexInsideFilter
             } else {
-                l.filter_depth -= 1;
                 State::LexInsideBracketedSegment
             }
         }
@@ -477,7 +493,7 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::LParen);
             // Are we in a function call? If so, a function argument contains parens.
-            if let Some(i) = l.paren_stack.last_mut() {
+            if let Some(i) = l.paren_stack().and_then(|stack| stack.last_mut()) {
                 *i += 1;
             }
             State::LexInsideFilter
@@ -486,11 +502,13 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             l.next();
             l.emit(TokenType::RParen);
             // Are we closing a function call or a parenthesized expression?
-            if !l.paren_stack.is_empty() {
-                if *l.paren_stack.last().unwrap() == 1 {
-                    l.paren_stack.pop();
-                } else {
-                    *l.paren_stack.last_mut().unwrap() -= 1;
+            if let Some(stack) = l.paren_stack() {
+                match stack.last_mut() {
+                    Some(1) => {
+                        stack.pop();
+                    }
+                    Some(i) => *i -= 1,
+                    None => (),
                 }
             }
             State::LexInsideFilter
@@ -579,7 +597,9 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
                     _ => {
                         if l.peek() == '(' {
                             // a function call
-                            l.paren_stack.push(1);
+                            if let Some(stack) = l.paren_stack() {
+                                stack.push(1);
+                            }
                             l.emit(TokenType::Function {
                                 name: l.boxed_value(),
                             });
@@ -649,6 +669,11 @@ fn lex_number(l: &mut Lexer) -> State {
         return l.error(msg);
     }
 
+    let digits = l.value().trim_start_matches('-');
+    if digits.len() > 1 && digits.starts_with('0') {
+        return l.error(String::from("unexpected leading zero"));
+    }
+
     if l.accept('.') {
         // a float
         if !l.accept_run(is_digit) {
@@ -658,7 +683,7 @@ fn lex_number(l: &mut Lexer) -> State {
         }
 
         // exponent
-        if l.accept('e') {
+        if l.accept_if(|ch| ch == 'e' || ch == 'E') {
             l.accept_if(|ch| ch == '+' || ch == '-');
             if !l.accept_run(is_digit) {
                 return l.error(String::from("at least one exponent digit is required"));
@@ -670,7 +695,7 @@ fn lex_number(l: &mut Lexer) -> State {
         });
     } else {
         // exponent
-        if l.accept('e') {
+        if l.accept_if(|ch| ch == 'e' || ch == 'E') {
             if l.accept('-') {
                 // emit a float if exponent is negative
                 if !l.accept_run(is_digit) {
-- 
2.43.0


From 49861f0277f1c85b8f8d85be5607bba5c9907aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 02/17] fix: grammar, typing and escapes of the hand-written
 parser

Reject trailing commas, missing colons and commas, parenthesised or
logical comparands and double negation. Keep integers beyond i64, accept
logical arguments as the RFC does, and unescape true surrogate pairs only.
---
 crates/jsonpath_rfc9535/src/parser.rs | 388 ++++++++++++++------------
 1 file changed, 204 insertions(+), 184 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/parser.rs b/crates/jsonpath_rfc9535/src/parser.rs
index 5df9a7d..462c16d 100644
--- a/crates/jsonpath_rfc9535/src/parser.rs
+++ b/crates/jsonpath_rfc9535/src/parser.rs
@@ -51,6 +51,9 @@ const EOF_TOKEN: Token = Token {
     span: (0, 1),
 };
 
+// 2^53, integers smaller than this are exactly representable as an f64
+const MAX_EXACT_INT: f64 = 9007199254740992.0;
+
 const PRECEDENCE_LOWEST: u8 = 1;
 const PRECEDENCE_LOGICAL_OR: u8 = 3;
 const PRECEDENCE_LOGICAL_AND: u8 = 4;
@@ -286,7 +289,7 @@ impl Parser {
                     kind: SingleQuoteString { value },
                     span,
                 } => {
-                    let name = unescape_string(&value.replace("\\'", "'"), span)?;
+                    let name = unescape_string(value, span)?;
                     let token = it.next();
                     selectors.push(Selector::Name {
                         span: token.span,
@@ -315,24 +318,18 @@ impl Parser {
                 }
             }
 
-            #[cfg(debug_assertions)]
-            debug_assert!(
-                matches!(
-                    it.peek(),
-                    Token {
-                        kind: Comma | TokenType::RBracket,
-                        ..
-                    }
-                ),
-                "expected a comma or the end of a bracketed selection"
-            );
-
             // expect a comma or closing bracket
             match it.peek() {
                 Token { kind: RBracket, .. } => continue,
                 Token { kind: Comma, .. } => {
                     // eat comma
-                    it.next();
+                    let token = it.next();
+                    if it.peek().kind == RBracket {
+                        return Err(JSONPathError::syntax(
+                            String::from("unexpected trailing comma"),
+                            token.span,
+                        ));
+                    }
                 }
                 token => {
                     return Err(JSONPathError::new(
@@ -386,23 +383,23 @@ impl Parser {
                 it.next(); // eat colon
             }
 
-            // 1 or 1: or : or ?
-            if matches!(it.peek().kind, Index { .. } | Colon) {
+            // 1 or ?
+            if matches!(it.peek().kind, Index { .. }) {
                 if let Token {
                     kind: Index { ref value },
                     span,
                 } = it.next()
                 {
                     stop = Some(self.parse_i_json_int(value, span)?);
-                    if it.peek().kind == Colon {
-                        it.next(); // eat colon
-                    }
                 }
             }
 
-            // 1 or ?
-            if matches!(it.peek().kind, Index { .. }) {
-                if let Token {
+            // : or :1 or ?
+            if it.peek().kind == Colon {
+                it.next(); // eat colon
+                if !matches!(it.peek().kind, Index { .. }) {
+                    // no step
+                } else if let Token {
                     kind: Index { ref value },
                     span,
                 } = it.next()
@@ -448,32 +445,7 @@ impl Parser {
         let token = it.next();
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOWEST)?;
 
-        match expr {
-            FilterExpression::Function { ref name, span, .. } => {
-                if let Some(FunctionSignature {
-                    return_type: ExpressionType::Value,
-                    ..
-                }) = self.functions.get(name)
-                {
-                    return Err(JSONPathError::typ(
-                        format!("result of {}() must be compared", name),
-                        span,
-                    ));
-                }
-            }
-            FilterExpression::True { span, .. }
-            | FilterExpression::False { span, .. }
-            | FilterExpression::Null { span, .. }
-            | FilterExpression::String { span, .. }
-            | FilterExpression::Int { span, .. }
-            | FilterExpression::Float { span, .. } => {
-                return Err(JSONPathError::typ(
-                    String::from("filter expression literals must be compared"),
-                    span,
-                ));
-            }
-            _ => (),
-        }
+        self.assert_test(&expr)?;
 
         Ok(Selector::Filter {
             span: token.span,
@@ -486,7 +458,17 @@ impl Parser {
         it: &mut TokenStream,
     ) -> Result<FilterExpression, JSONPathError> {
         let token = it.next();
+
+        if it.peek().kind == Not {
+            return Err(JSONPathError::syntax(
+                String::from("expected a filter expression, found `!`"),
+                it.peek().span,
+            ));
+        }
+
         let expr = self.parse_filter_expression(it, PRECEDENCE_LOGICAL_NOT)?;
+        self.assert_test(&expr)?;
+
         Ok(FilterExpression::Not {
             span: token.span,
             expression: Box::new(expr),
@@ -500,6 +482,14 @@ impl Parser {
     ) -> Result<FilterExpression, JSONPathError> {
         let op_token = it.next();
         let precedence = self.precedence(&op_token.kind);
+
+        if precedence == PRECEDENCE_RELATIONAL && it.peek().kind == LParen {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                it.peek().span,
+            ));
+        }
+
         let right = self.parse_filter_expression(it, precedence)?;
 
         match op_token.kind {
@@ -510,6 +500,8 @@ impl Parser {
                         left.span(),
                     ))
                 } else {
+                    self.assert_test(&left)?;
+                    self.assert_test(&right)?;
                     Ok(FilterExpression::Logical {
                         span: left.span(),
                         left: Box::new(left),
@@ -525,6 +517,8 @@ impl Parser {
                         left.span(),
                     ))
                 } else {
+                    self.assert_test(&left)?;
+                    self.assert_test(&right)?;
                     Ok(FilterExpression::Logical {
                         span: left.span(),
                         left: Box::new(left),
@@ -639,6 +633,15 @@ impl Parser {
         );
 
         it.next(); // eat closing paren
+        self.assert_test(&expr)?;
+
+        if matches!(it.peek().kind, Eq | Ge | Gt | Le | Lt | Ne) {
+            return Err(JSONPathError::syntax(
+                String::from("parenthesized expressions are not comparable"),
+                it.peek().span,
+            ));
+        }
+
         Ok(expr)
     }
 
@@ -683,15 +686,27 @@ impl Parser {
                 kind: Int { value },
                 span,
             } => {
-                let i = value.parse::<f64>().map_err(|_| {
+                let int = value.parse::<i64>().ok();
+                let float = value.parse::<f64>().map_err(|_| {
                     JSONPathError::syntax(String::from("invalid integer literal"), *span)
-                })? as i64;
+                })?;
 
                 let token = it.next();
-                Ok(FilterExpression::Int {
-                    span: token.span,
-                    value: i,
-                })
+                match int {
+                    Some(value) => Ok(FilterExpression::Int {
+                        span: token.span,
+                        value,
+                    }),
+                    None if float.abs() < MAX_EXACT_INT => Ok(FilterExpression::Int {
+                        span: token.span,
+                        value: float as i64,
+                    }),
+                    // not exactly representable as an i64
+                    None => Ok(FilterExpression::Float {
+                        span: token.span,
+                        value: float,
+                    }),
+                }
             }
             Token { kind: Null, .. } => {
                 let token = it.next();
@@ -717,7 +732,7 @@ impl Parser {
                 kind: SingleQuoteString { value },
                 span,
             } => {
-                let value = unescape_string(&value.replace("\\'", "'"), span)?;
+                let value = unescape_string(value, span)?;
                 let token = it.next();
                 Ok(FilterExpression::String {
                     span: token.span,
@@ -741,37 +756,34 @@ impl Parser {
         let token = it.next();
         let mut arguments: Vec<FilterExpression> = Vec::new();
 
-        while it.peek().kind != RParen {
-            let mut expr = self.parse_basic_expression(it)?;
-
-            while matches!(it.peek().kind, Eq | Ge | Gt | Le | Lt | Ne | And | Or) {
-                expr = self.parse_infix_expression(it, expr)?
-            }
+        // Parenthesized arguments are always logical expressions.
+        let mut grouped: Vec<bool> = Vec::new();
 
-            arguments.push(expr);
+        if it.peek().kind != RParen {
+            loop {
+                grouped.push(it.peek().kind == LParen);
+                arguments.push(self.parse_filter_expression(it, PRECEDENCE_LOWEST)?);
 
-            match it.peek() {
-                Token { kind: RParen, .. } => {
-                    break;
-                }
-                Token { kind: Comma, .. } => {
-                    it.next(); // eat comma
+                match it.peek() {
+                    Token { kind: RParen, .. } => break,
+                    Token { kind: Comma, .. } => {
+                        it.next(); // eat comma
+                    }
+                    Token { kind, span } => {
+                        return Err(JSONPathError::syntax(
+                            format!("expected a comma or closing paren, found {}", kind),
+                            *span,
+                        ));
+                    }
                 }
-                _ => (),
             }
         }
 
-        #[cfg(debug_assertions)]
-        debug_assert!(
-            matches!(it.peek(), Token { kind: RParen, .. }),
-            "expected closing paren"
-        );
-
         it.next(); // eat closing paren
 
         if let Function { ref name } = &token.kind {
             let function_name = name.to_string();
-            self.assert_well_typed(&function_name, &arguments, &token)?;
+            self.assert_well_typed(&function_name, &arguments, &grouped, &token)?;
             Ok(FilterExpression::Function {
                 span: token.span,
                 name: function_name,
@@ -848,6 +860,36 @@ impl Parser {
                     ))
                 }
             }
+            FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => Err(JSONPathError::syntax(
+                String::from("logical expressions are not comparable"),
+                span,
+            )),
+            _ => Ok(()),
+        }
+    }
+
+    /// Return an error if `expr` can not be used as a logical expression.
+    fn assert_test(&self, expr: &FilterExpression) -> Result<(), JSONPathError> {
+        match expr {
+            FilterExpression::Function { name, span, .. } => {
+                if let Some(FunctionSignature {
+                    return_type: ExpressionType::Value,
+                    ..
+                }) = self.functions.get(name)
+                {
+                    return Err(JSONPathError::typ(
+                        format!("result of {}() must be compared", name),
+                        *span,
+                    ));
+                }
+                Ok(())
+            }
+            _ if expr.is_literal() => Err(JSONPathError::typ(
+                String::from("filter expression literals must be compared"),
+                expr.span(),
+            )),
             _ => Ok(()),
         }
     }
@@ -856,6 +898,7 @@ impl Parser {
         &self,
         func_name: &str,
         args: &[FilterExpression],
+        grouped: &[bool],
         token: &Token,
     ) -> Result<(), JSONPathError> {
         let signature = self.functions.get(func_name).ok_or_else(|| {
@@ -885,7 +928,7 @@ impl Parser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Value' type",
@@ -897,13 +940,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Logical' type",
@@ -915,7 +952,7 @@ impl Parser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(
                             format!(
                                 "argument {} of {}() must be of a 'Nodes' type",
@@ -958,6 +995,27 @@ impl Parser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
@@ -1002,125 +1060,87 @@ impl Parser {
 }
 
 fn unescape_string(value: &str, token_span: &(usize, usize)) -> Result<String, JSONPathError> {
-    let chars = value.chars().collect::<Vec<char>>();
-    let length = chars.len();
     let mut rv = String::new();
-    let mut index: usize = 0;
+    let mut chars = value.char_indices().peekable();
 
-    while index < length {
+    while let Some((index, ch)) = chars.next() {
         let start_index = token_span.0 + index; // for error reporting
 
-        match chars[index] {
-            '\\' => {
-                if index + 1 >= length {
-                    return Err(JSONPathError::syntax(
-                        String::from("invalid escape"),
-                        (start_index, index + 1),
-                    ));
-                }
-
-                index += 1;
-
-                match chars[index] {
-                    '"' => rv.push('"'),
-                    '\\' => rv.push('\\'),
-                    '/' => rv.push('/'),
-                    'b' => rv.push('\x08'),
-                    'f' => rv.push('\x0C'),
-                    'n' => rv.push('\n'),
-                    'r' => rv.push('\r'),
-                    't' => rv.push('\t'),
-                    'u' => {
-                        // expect four hex digits
-                        if index + 4 >= length {
-                            return Err(JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, length),
-                            ));
-                        }
-
-                        index += 1;
-
-                        let digits = chars
-                            .get(index..index + 4)
-                            .unwrap()
-                            .iter()
-                            .collect::<String>();
-
-                        let mut codepoint = u32::from_str_radix(&digits, 16).map_err(|_| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 4),
-                            )
-                        })?;
-
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
-                            // expect a surrogate pair
-                            if index + 9 >= length {
-                                return Err(JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, length),
-                                ));
+        match ch {
+            '\\' => match chars.next() {
+                Some((_, '"')) => rv.push('"'),
+                Some((_, '\'')) => rv.push('\''),
+                Some((_, '\\')) => rv.push('\\'),
+                Some((_, '/')) => rv.push('/'),
+                Some((_, 'b')) => rv.push('\x08'),
+                Some((_, 'f')) => rv.push('\x0C'),
+                Some((_, 'n')) => rv.push('\n'),
+                Some((_, 'r')) => rv.push('\r'),
+                Some((_, 't')) => rv.push('\t'),
+                Some((_, 'u')) => {
+                    let mut end = index + 6;
+                    let mut codepoint = parse_hex_digits(value, index + 2);
+
+                    if let Some(high @ 0xD800..=0xDBFF) = codepoint {
+                        // expect a surrogate pair
+                        codepoint = match parse_hex_digits(value, index + 8) {
+                            Some(low @ 0xDC00..=0xDFFF)
+                                if value.get(index + 6..index + 8) == Some("\\u") =>
+                            {
+                                end = index + 12;
+                                Some(0x10000 + ((high & 0x03FF) << 10) + (low & 0x03FF))
                             }
-
-                            let digits = &chars
-                                .get(index + 6..index + 10)
-                                .unwrap()
-                                .iter()
-                                .collect::<String>();
-
-                            let low_surrogate = u32::from_str_radix(digits, 16).map_err(|_| {
-                                JSONPathError::syntax(
-                                    String::from("invalid \\uXXXX escape"),
-                                    (start_index, index + 10),
-                                )
-                            })?;
-
-                            codepoint =
-                                0x10000 + (((codepoint & 0x03FF) << 10) | (low_surrogate & 0x03FF));
-
-                            index += 6;
-                        }
-
-                        let unescaped = char::from_u32(codepoint).ok_or_else(|| {
-                            JSONPathError::syntax(
-                                String::from("invalid \\uXXXX escape"),
-                                (start_index, index + 3),
-                            )
-                        })?;
-
-                        if unescaped as u32 <= 0x1F {
-                            return Err(JSONPathError::syntax(
-                                String::from("invalid character"),
-                                (start_index, start_index + 1),
-                            ));
-                        }
-
-                        rv.push(unescaped);
-                        index += 3;
+                            _ => None,
+                        };
                     }
-                    _ => {
+
+                    let unescaped = codepoint.and_then(char::from_u32).ok_or_else(|| {
+                        JSONPathError::syntax(
+                            String::from("invalid \\uXXXX escape"),
+                            (start_index, start_index + 2),
+                        )
+                    })?;
+
+                    if unescaped as u32 <= 0x1F {
                         return Err(JSONPathError::syntax(
-                            String::from("invalid escape"),
-                            (start_index, index + 1),
+                            String::from("invalid character"),
+                            (start_index, start_index + 2),
                         ));
                     }
+
+                    rv.push(unescaped);
+
+                    // eat hex digits
+                    while chars.next_if(|(i, _)| *i < end).is_some() {}
                 }
-            }
+                _ => {
+                    return Err(JSONPathError::syntax(
+                        String::from("invalid escape"),
+                        (start_index, start_index + 1),
+                    ));
+                }
+            },
             c => {
                 if c as u32 <= 0x1F {
                     return Err(JSONPathError::syntax(
                         String::from("invalid character"),
-                        (start_index, index + 1),
+                        (start_index, start_index + c.len_utf8()),
                     ));
                 }
                 rv.push(c);
             }
         }
-
-        index += 1;
     }
 
     Ok(rv)
 }
+
+/// Parse four hexadecimal digits starting at byte `index` of `value`.
+fn parse_hex_digits(value: &str, index: usize) -> Option<u32> {
+    let digits = value.get(index..index + 4)?;
+    if digits.bytes().all(|b| b.is_ascii_hexdigit()) {
+        u32::from_str_radix(digits, 16).ok()
+    } else {
+        None
+    }
+}
-- 
2.43.0


From de786d6ff9478ca63d47f3d09a8ace0b2daef192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 03/17] fix: display escaped names and strings, and negated
 comparisons

---
 crates/jsonpath_rfc9535/src/query.rs | 39 +++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index 1d7dd05..cde1697 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -18,6 +18,26 @@ lazy_static! {
     static ref PARSER: Parser = Parser::new();
 }
 
+/// Write `value`, with control characters and characters in `special` escaped.
+fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+    for ch in value.chars() {
+        match ch {
+            '\x08' => f.write_str("\\b")?,
+            '\x0C' => f.write_str("\\f")?,
+            '\n' => f.write_str("\\n")?,
+            '\r' => f.write_str("\\r")?,
+            '\t' => f.write_str("\\t")?,
+            ch if (ch as u32) < 0x20 => write!(f, "\\u{:04x}", ch as u32)?,
+            ch if special.contains(ch) => {
+                f.write_char('\\')?;
+                f.write_char(ch)?;
+            }
+            ch => f.write_char(ch)?,
+        }
+    }
+    Ok(())
+}
+
 #[derive(Debug)]
 pub struct Query {
     pub segments: Vec<Segment>,
@@ -132,7 +152,11 @@ pub enum Selector {
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, name, "'\\")?;
+                f.write_char('\'')
+            }
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -286,10 +310,19 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "\"{value}\""),
+            FilterExpression::String { value, .. } => {
+                f.write_char('"')?;
+                write_escaped(f, value, "\\")?;
+                f.write_char('"')
+            }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
-- 
2.43.0


From d765c34014832b445f3ed97745e338e8c16c613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 04/17] fix: accept every escaped control character in the
 evaluators

---
 crates/jsonpath_rfc9535_iter/src/unescape.rs     | 16 ++++++----------
 .../jsonpath_rfc9535_locations/src/unescape.rs   | 16 ++++++----------
 crates/jsonpath_rfc9535_serde/src/unescape.rs    | 16 ++++++----------
 .../src/unescape.rs                              | 16 ++++++----------
 4 files changed, 24 insertions(+), 40 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/unescape.rs b/crates/jsonpath_rfc9535_iter/src/unescape.rs
index d38c16d..6d64f17 100644
--- a/crates/jsonpath_rfc9535_iter/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_iter/src/unescape.rs
@@ -24,7 +24,7 @@ pub fn unescape(value: &str) -> Result<String, JSONPathError> {
                 b't' => rv.push(b'\t'),
                 b'u' => {
                     (code_point, index) = decode_hex_char(bytes, index)?;
-                    let mut x = encode_code_point(code_point)?;
+                    let mut x = encode_code_point(code_point);
                     rv.append(&mut x);
                 }
                 _ => return Err(JSONPathError::syntax("unknown escape sequence".to_owned())),
@@ -83,15 +83,11 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
         .map_err(|_| JSONPathError::syntax("invalid escape sequence".to_owned()))
 }
 
-fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+fn encode_code_point(code_point: u32) -> Vec<u8> {
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    rv.as_bytes().to_owned()
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_locations/src/unescape.rs b/crates/jsonpath_rfc9535_locations/src/unescape.rs
index d38c16d..6d64f17 100644
--- a/crates/jsonpath_rfc9535_locations/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_locations/src/unescape.rs
@@ -24,7 +24,7 @@ pub fn unescape(value: &str) -> Result<String, JSONPathError> {
                 b't' => rv.push(b'\t'),
                 b'u' => {
                     (code_point, index) = decode_hex_char(bytes, index)?;
-                    let mut x = encode_code_point(code_point)?;
+                    let mut x = encode_code_point(code_point);
                     rv.append(&mut x);
                 }
                 _ => return Err(JSONPathError::syntax("unknown escape sequence".to_owned())),
@@ -83,15 +83,11 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
         .map_err(|_| JSONPathError::syntax("invalid escape sequence".to_owned()))
 }
 
-fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+fn encode_code_point(code_point: u32) -> Vec<u8> {
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    rv.as_bytes().to_owned()
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_serde/src/unescape.rs b/crates/jsonpath_rfc9535_serde/src/unescape.rs
index d38c16d..6d64f17 100644
--- a/crates/jsonpath_rfc9535_serde/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_serde/src/unescape.rs
@@ -24,7 +24,7 @@ pub fn unescape(value: &str) -> Result<String, JSONPathError> {
                 b't' => rv.push(b'\t'),
                 b'u' => {
                     (code_point, index) = decode_hex_char(bytes, index)?;
-                    let mut x = encode_code_point(code_point)?;
+                    let mut x = encode_code_point(code_point);
                     rv.append(&mut x);
                 }
                 _ => return Err(JSONPathError::syntax("unknown escape sequence".to_owned())),
@@ -83,15 +83,11 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
         .map_err(|_| JSONPathError::syntax("invalid escape sequence".to_owned()))
 }
 
-fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+fn encode_code_point(code_point: u32) -> Vec<u8> {
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    rv.as_bytes().to_owned()
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
index d38c16d..6d64f17 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/unescape.rs
@@ -24,7 +24,7 @@ pub fn unescape(value: &str) -> Result<String, JSONPathError> {
                 b't' => rv.push(b'\t'),
                 b'u' => {
                     (code_point, index) = decode_hex_char(bytes, index)?;
-                    let mut x = encode_code_point(code_point)?;
+                    let mut x = encode_code_point(code_point);
                     rv.append(&mut x);
                 }
                 _ => return Err(JSONPathError::syntax("unknown escape sequence".to_owned())),
@@ -83,15 +83,11 @@ fn parse_hex_digits(digits: &[u8]) -> Result<u32, JSONPathError> {
         .map_err(|_| JSONPathError::syntax("invalid escape sequence".to_owned()))
 }
 
-fn encode_code_point(code_point: u32) -> Result<Vec<u8>, JSONPathError> {
-    if code_point < 0x1F {
-        Err(JSONPathError::syntax("invalid character".to_owned()))
-    } else {
-        // TODO: better
-        let mut buf = [0; 4];
-        let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
-        Ok(rv.as_bytes().to_owned())
-    }
+fn encode_code_point(code_point: u32) -> Vec<u8> {
+    // TODO: better
+    let mut buf = [0; 4];
+    let rv = char::from_u32(code_point).unwrap().encode_utf8(&mut buf);
+    rv.as_bytes().to_owned()
 }
 
 fn is_high_surrogate(code_point: u32) -> bool {
-- 
2.43.0


From b12e01e4a50deaec428977fc082ad972d0fcd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 05/17] fix: function arguments, number literals and operand
 types in the pest parsers

Parse a function call only once, so that nested calls don't take exponential
time, and treat keyword prefixes of function names as such. Arguments can be
any logical expression, parenthesised ones only that. Keep the sign of -0.5
and the value of integers beyond i64, and merge true surrogate pairs only.
---
 .../jsonpath_rfc9535_iter/src/jsonpath.pest   |  19 +--
 crates/jsonpath_rfc9535_iter/src/parser.rs    | 124 +++++++++--------
 .../src/jsonpath.pest                         |  19 +--
 .../jsonpath_rfc9535_locations/src/parser.rs  | 124 +++++++++--------
 .../jsonpath_rfc9535_pest/src/jsonpath.pest   |  19 +--
 crates/jsonpath_rfc9535_pest/src/parser.rs    | 128 ++++++++++--------
 .../src/jsonpath.pest                         |  19 +--
 .../src/parser.rs                             | 128 ++++++++++--------
 .../jsonpath_rfc9535_serde/src/jsonpath.pest  |  19 +--
 crates/jsonpath_rfc9535_serde/src/parser.rs   | 124 +++++++++--------
 .../src/jsonpath.pest                         |  19 +--
 .../src/parser.rs                             | 124 +++++++++--------
 12 files changed, 466 insertions(+), 400 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
index e1f7edb..a16e769 100644
--- a/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_iter/src/jsonpath.pest
@@ -85,20 +85,25 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// A function call is followed by a comparison operator or it is a test. Having
+// one rule for both means we never parse a function call more than once.
+
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+test_expr               =  { (logical_not_op ~ S ~ (filter_query | function_expr)) | filter_query }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
 
 literal = _{
     number
@@ -137,9 +142,9 @@ index_segment       =  { "[" ~ index_selector ~ "]" }
 number              =  { (int | "-0") ~ frac? ~ exp? }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
@@ -149,10 +154,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_iter/src/parser.rs b/crates/jsonpath_rfc9535_iter/src/parser.rs
index 9b77877..6f3a662 100644
--- a/crates/jsonpath_rfc9535_iter/src/parser.rs
+++ b/crates/jsonpath_rfc9535_iter/src/parser.rs
@@ -20,6 +20,9 @@ use crate::{
     unescape::unescape,
 };
 
+// 2^53, integers smaller than this are exactly representable as an f64
+const MAX_EXACT_INT: f64 = 9007199254740992.0;
+
 #[derive(Parser)]
 #[grammar = "jsonpath.pest"]
 struct JSONPath;
@@ -141,6 +144,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -168,6 +172,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -196,6 +201,13 @@ impl JSONPathParser {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
             Rule::test_expr => self.parse_test_expression(expr),
+            Rule::function_basic_expr => {
+                if expr.clone().into_inner().len() > 1 {
+                    self.parse_comparison_expression(expr)
+                } else {
+                    self.parse_test_expression(expr)
+                }
+            }
             _ => unreachable!(),
         }
     }
@@ -282,63 +294,36 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        // Fractions, negative exponents and numbers that can't be represented
+        // exactly as an integer are floats.
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(match n.parse::<i64>() {
+            Ok(value) => FilterExpression::Int { value },
+            Err(_) if !is_float && value.abs() < MAX_EXACT_INT => FilterExpression::Int {
+                value: value as i64,
+            },
+            Err(_) => FilterExpression::Float { value },
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -383,11 +368,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // Parenthesized arguments are always logical expressions.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -502,6 +494,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -529,7 +522,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -538,13 +531,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -553,7 +540,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -593,6 +580,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
index e1f7edb..a16e769 100644
--- a/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_locations/src/jsonpath.pest
@@ -85,20 +85,25 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// A function call is followed by a comparison operator or it is a test. Having
+// one rule for both means we never parse a function call more than once.
+
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+test_expr               =  { (logical_not_op ~ S ~ (filter_query | function_expr)) | filter_query }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
 
 literal = _{
     number
@@ -137,9 +142,9 @@ index_segment       =  { "[" ~ index_selector ~ "]" }
 number              =  { (int | "-0") ~ frac? ~ exp? }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
@@ -149,10 +154,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_locations/src/parser.rs b/crates/jsonpath_rfc9535_locations/src/parser.rs
index 9b77877..6f3a662 100644
--- a/crates/jsonpath_rfc9535_locations/src/parser.rs
+++ b/crates/jsonpath_rfc9535_locations/src/parser.rs
@@ -20,6 +20,9 @@ use crate::{
     unescape::unescape,
 };
 
+// 2^53, integers smaller than this are exactly representable as an f64
+const MAX_EXACT_INT: f64 = 9007199254740992.0;
+
 #[derive(Parser)]
 #[grammar = "jsonpath.pest"]
 struct JSONPath;
@@ -141,6 +144,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -168,6 +172,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -196,6 +201,13 @@ impl JSONPathParser {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
             Rule::test_expr => self.parse_test_expression(expr),
+            Rule::function_basic_expr => {
+                if expr.clone().into_inner().len() > 1 {
+                    self.parse_comparison_expression(expr)
+                } else {
+                    self.parse_test_expression(expr)
+                }
+            }
             _ => unreachable!(),
         }
     }
@@ -282,63 +294,36 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        // Fractions, negative exponents and numbers that can't be represented
+        // exactly as an integer are floats.
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(match n.parse::<i64>() {
+            Ok(value) => FilterExpression::Int { value },
+            Err(_) if !is_float && value.abs() < MAX_EXACT_INT => FilterExpression::Int {
+                value: value as i64,
+            },
+            Err(_) => FilterExpression::Float { value },
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -383,11 +368,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // Parenthesized arguments are always logical expressions.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -502,6 +494,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -529,7 +522,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -538,13 +531,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -553,7 +540,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -593,6 +580,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
index e1f7edb..a16e769 100644
--- a/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest/src/jsonpath.pest
@@ -85,20 +85,25 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// A function call is followed by a comparison operator or it is a test. Having
+// one rule for both means we never parse a function call more than once.
+
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+test_expr               =  { (logical_not_op ~ S ~ (filter_query | function_expr)) | filter_query }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
 
 literal = _{
     number
@@ -137,9 +142,9 @@ index_segment       =  { "[" ~ index_selector ~ "]" }
 number              =  { (int | "-0") ~ frac? ~ exp? }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
@@ -149,10 +154,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_pest/src/parser.rs b/crates/jsonpath_rfc9535_pest/src/parser.rs
index 1497595..1c73d1f 100644
--- a/crates/jsonpath_rfc9535_pest/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest/src/parser.rs
@@ -15,6 +15,9 @@ use crate::{
     errors::JSONPathError,
 };
 
+// 2^53, integers smaller than this are exactly representable as an f64
+const MAX_EXACT_INT: f64 = 9007199254740992.0;
+
 #[derive(Parser)]
 #[grammar = "jsonpath.pest"]
 struct JSONPath;
@@ -193,6 +196,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -220,6 +224,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -248,6 +253,13 @@ impl JSONPathParser {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
             Rule::test_expr => self.parse_test_expression(expr),
+            Rule::function_basic_expr => {
+                if expr.clone().into_inner().len() > 1 {
+                    self.parse_comparison_expression(expr)
+                } else {
+                    self.parse_test_expression(expr)
+                }
+            }
             _ => unreachable!(),
         }
     }
@@ -334,63 +346,36 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.starts_with('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.starts_with('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        // Fractions, negative exponents and numbers that can't be represented
+        // exactly as an integer are floats.
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(match n.parse::<i64>() {
+            Ok(value) => FilterExpression::Int { value },
+            Err(_) if !is_float && value.abs() < MAX_EXACT_INT => FilterExpression::Int {
+                value: value as i64,
+            },
+            Err(_) => FilterExpression::Float { value },
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -435,11 +420,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // Parenthesized arguments are always logical expressions.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -554,6 +546,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -581,7 +574,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -590,13 +583,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -605,7 +592,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -645,6 +632,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
@@ -693,8 +701,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
+                            // the grammar ensures there's a low surrogate
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
index e1f7edb..a16e769 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/jsonpath.pest
@@ -85,20 +85,25 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// A function call is followed by a comparison operator or it is a test. Having
+// one rule for both means we never parse a function call more than once.
+
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+test_expr               =  { (logical_not_op ~ S ~ (filter_query | function_expr)) | filter_query }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
 
 literal = _{
     number
@@ -137,9 +142,9 @@ index_segment       =  { "[" ~ index_selector ~ "]" }
 number              =  { (int | "-0") ~ frac? ~ exp? }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
@@ -149,10 +154,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
index 4cd4dc1..e89f822 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/parser.rs
@@ -18,6 +18,9 @@ use crate::{
     errors::JSONPathError,
 };
 
+// 2^53, integers smaller than this are exactly representable as an f64
+const MAX_EXACT_INT: f64 = 9007199254740992.0;
+
 #[derive(Parser)]
 #[grammar = "jsonpath.pest"]
 struct JSONPath;
@@ -214,6 +217,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -241,6 +245,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -269,6 +274,13 @@ impl JSONPathParser {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
             Rule::test_expr => self.parse_test_expression(expr),
+            Rule::function_basic_expr => {
+                if expr.clone().into_inner().len() > 1 {
+                    self.parse_comparison_expression(expr)
+                } else {
+                    self.parse_test_expression(expr)
+                }
+            }
             _ => unreachable!(),
         }
     }
@@ -353,63 +365,36 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        // Fractions, negative exponents and numbers that can't be represented
+        // exactly as an integer are floats.
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(match n.parse::<i64>() {
+            Ok(value) => FilterExpression::Int { value },
+            Err(_) if !is_float && value.abs() < MAX_EXACT_INT => FilterExpression::Int {
+                value: value as i64,
+            },
+            Err(_) => FilterExpression::Float { value },
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -452,11 +437,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // Parenthesized arguments are always logical expressions.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -570,6 +562,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -597,7 +590,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -606,13 +599,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -621,7 +608,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -661,6 +648,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // nodes will be coerced to a logical value
+                matches!(
+                    self.function_signatures.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
@@ -709,8 +717,8 @@ fn unescape_string(value: &str) -> String {
 
                         let mut codepoint = u32::from_str_radix(&digits, 16).unwrap();
 
-                        if index + 5 < length && chars[index + 4] == '\\' && chars[index + 5] == 'u'
-                        {
+                        if (0xD800..=0xDBFF).contains(&codepoint) {
+                            // the grammar ensures there's a low surrogate
                             let digits = &chars
                                 .get(index + 6..index + 10)
                                 .unwrap()
diff --git a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
index e1f7edb..a16e769 100644
--- a/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_serde/src/jsonpath.pest
@@ -85,20 +85,25 @@ logical_expr      = _{ logical_or_expr }
 logical_or_expr   =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr)* }
 logical_and_expr  =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 
+// A function call is followed by a comparison operator or it is a test. Having
+// one rule for both means we never parse a function call more than once.
+
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+test_expr               =  { (logical_not_op ~ S ~ (filter_query | function_expr)) | filter_query }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
 
 literal = _{
     number
@@ -137,9 +142,9 @@ index_segment       =  { "[" ~ index_selector ~ "]" }
 number              =  { (int | "-0") ~ frac? ~ exp? }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
@@ -149,10 +154,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_serde/src/parser.rs b/crates/jsonpath_rfc9535_serde/src/parser.rs
index 58a0513..d3a56c5 100644
--- a/crates/jsonpath_rfc9535_serde/src/parser.rs
+++ b/crates/jsonpath_rfc9535_serde/src/parser.rs
@@ -17,6 +17,9 @@ use crate::{
     unescape::unescape,
 };
 
+// 2^53, integers smaller than this are exactly representable as an f64
+const MAX_EXACT_INT: f64 = 9007199254740992.0;
+
 #[derive(Parser)]
 #[grammar = "jsonpath.pest"]
 struct JSONPath;
@@ -138,6 +141,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -165,6 +169,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -193,6 +198,13 @@ impl JSONPathParser {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
             Rule::test_expr => self.parse_test_expression(expr),
+            Rule::function_basic_expr => {
+                if expr.clone().into_inner().len() > 1 {
+                    self.parse_comparison_expression(expr)
+                } else {
+                    self.parse_test_expression(expr)
+                }
+            }
             _ => unreachable!(),
         }
     }
@@ -279,63 +291,36 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        // Fractions, negative exponents and numbers that can't be represented
+        // exactly as an integer are floats.
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(match n.parse::<i64>() {
+            Ok(value) => FilterExpression::Int { value },
+            Err(_) if !is_float && value.abs() < MAX_EXACT_INT => FilterExpression::Int {
+                value: value as i64,
+            },
+            Err(_) => FilterExpression::Float { value },
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -380,11 +365,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // Parenthesized arguments are always logical expressions.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -499,6 +491,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -526,7 +519,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -535,13 +528,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -550,7 +537,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -590,6 +577,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
index 26df850..15ed0c8 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
+++ b/crates/jsonpath_rfc9535_singular_selector/src/jsonpath.pest
@@ -88,20 +88,25 @@ logical_or_expr         =  { logical_and_expr ~ (S ~ "||" ~ S ~ logical_and_expr
 logical_and_expr        =  { basic_expr ~ (S ~ "&&" ~ S ~ basic_expr)* }
 singular_query_selector =  { (root_identifier ~ singular_query_segments) | implicit_root_singular_query_segments }
 
+// A function call is followed by a comparison operator or it is a test. Having
+// one rule for both means we never parse a function call more than once.
+
 basic_expr = _{
     paren_expr
+  | function_basic_expr
   | comparison_expr
   | test_expr
 }
 
 paren_expr              =  { (logical_not_op ~ S)? ~ "(" ~ S ~ logical_expr ~ S ~ ")" }
 logical_not_op          =  { "!" }
-test_expr               =  { (logical_not_op ~ S)? ~ (filter_query | function_expr) }
+test_expr               =  { (logical_not_op ~ S ~ (filter_query | function_expr)) | filter_query }
 filter_query            = _{ rel_query | root_query }
 root_query              =  { jsonpath_query }
 rel_query               =  { current_node_identifier ~ segments }
 current_node_identifier = _{ "@" }
-comparison_expr         =  { comparable ~ S ~ comparison_op ~ S ~ comparable }
+comparison_expr         =  { (literal | singular_query) ~ S ~ comparison_op ~ S ~ comparable }
+function_basic_expr     =  { function_expr ~ (S ~ comparison_op ~ S ~ comparable)? }
 
 literal = _{
     number
@@ -149,9 +154,9 @@ index_segment       =  { "[" ~ index_selector ~ "]" }
 number              =  { (int | "-0") ~ frac? ~ exp? }
 frac                =  { "." ~ ASCII_DIGIT+ }
 exp                 =  { ^"e" ~ ("-" | "+")? ~ ASCII_DIGIT+ }
-true_literal        =  { "true" }
-false_literal       =  { "false" }
-null                =  { "null" }
+true_literal        =  { "true" ~ !function_name_char }
+false_literal       =  { "false" ~ !function_name_char }
+null                =  { "null" ~ !function_name_char }
 function_name       =  { function_name_first ~ function_name_char* }
 function_name_first = _{ ASCII_ALPHA_LOWER }
 function_name_char  = _{ function_name_first | "_" | ASCII_DIGIT }
@@ -161,10 +166,8 @@ function_expr = {
 }
 
 function_argument = _{
-    filter_query
+    (literal ~ &(S ~ ("," | ")")))
   | logical_expr
-  | function_expr
-  | literal
 }
 
 segment = _{
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
index b12afa0..7dbb5be 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/parser.rs
@@ -20,6 +20,9 @@ use crate::{
     unescape::unescape,
 };
 
+// 2^53, integers smaller than this are exactly representable as an f64
+const MAX_EXACT_INT: f64 = 9007199254740992.0;
+
 #[derive(Parser)]
 #[grammar = "jsonpath.pest"]
 struct JSONPath;
@@ -160,6 +163,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut or_expr = self.parse_logical_and_expression(it.next().unwrap(), assert_compared)?;
 
         if assert_compared {
@@ -187,6 +191,7 @@ impl JSONPathParser {
         assert_compared: bool,
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
+        let assert_compared = assert_compared || it.len() > 1;
         let mut and_expr = self.parse_basic_expression(it.next().unwrap())?;
 
         if assert_compared {
@@ -215,6 +220,13 @@ impl JSONPathParser {
             Rule::paren_expr => self.parse_paren_expression(expr),
             Rule::comparison_expr => self.parse_comparison_expression(expr),
             Rule::test_expr => self.parse_test_expression(expr),
+            Rule::function_basic_expr => {
+                if expr.clone().into_inner().len() > 1 {
+                    self.parse_comparison_expression(expr)
+                } else {
+                    self.parse_test_expression(expr)
+                }
+            }
             _ => unreachable!(),
         }
     }
@@ -301,63 +313,36 @@ impl JSONPathParser {
     }
 
     fn parse_number(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
-        if expr.as_str() == "-0" {
-            return Ok(FilterExpression::Int { value: 0 });
-        }
+        let n = expr.as_str();
 
-        // TODO: change pest grammar to indicate positive or negative exponent?
-        let mut it = expr.into_inner();
-        let mut is_float = false;
-        let mut n = it.next().unwrap().as_str().to_string(); // int
-
-        if let Some(pair) = it.next() {
-            match pair.as_rule() {
-                Rule::frac => {
-                    is_float = true;
-                    n.push_str(pair.as_str());
-                }
-                Rule::exp => {
-                    let exp_str = pair.as_str();
-                    if exp_str.contains('-') {
-                        is_float = true;
-                    }
-                    n.push_str(exp_str);
-                }
-                _ => unreachable!(),
-            }
-        }
+        let value = n
+            .parse::<f64>()
+            .map_err(|_| JSONPathError::syntax(String::from("invalid number literal")))?;
 
-        if let Some(pair) = it.next() {
-            let exp_str = pair.as_str();
-            if exp_str.contains('-') {
-                is_float = true;
-            }
-            n.push_str(exp_str);
-        }
+        // Fractions, negative exponents and numbers that can't be represented
+        // exactly as an integer are floats.
+        let is_float = n.contains('.') || n.contains("e-") || n.contains("E-");
 
-        if is_float {
-            Ok(FilterExpression::Float {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid float literal")))?,
-            })
-        } else {
-            Ok(FilterExpression::Int {
-                value: n
-                    .parse::<f64>()
-                    .map_err(|_| JSONPathError::syntax(String::from("invalid integer literal")))?
-                    as i64,
-            })
-        }
+        Ok(match n.parse::<i64>() {
+            Ok(value) => FilterExpression::Int { value },
+            Err(_) if !is_float && value.abs() < MAX_EXACT_INT => FilterExpression::Int {
+                value: value as i64,
+            },
+            Err(_) => FilterExpression::Float { value },
+        })
     }
 
     fn parse_test_expression(&self, expr: Pair<Rule>) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let pair = it.next().unwrap();
         Ok(match pair.as_rule() {
-            Rule::logical_not_op => FilterExpression::Not {
-                expression: Box::new(self.parse_test_expression_inner(it.next().unwrap())?),
-            },
+            Rule::logical_not_op => {
+                let expr = self.parse_test_expression_inner(it.next().unwrap())?;
+                self.assert_compared(&expr)?;
+                FilterExpression::Not {
+                    expression: Box::new(expr),
+                }
+            }
             _ => self.parse_test_expression_inner(pair)?,
         })
     }
@@ -402,11 +387,18 @@ impl JSONPathParser {
     ) -> Result<FilterExpression, JSONPathError> {
         let mut it = expr.into_inner();
         let name = it.next().unwrap().as_str();
+
+        // Parenthesized arguments are always logical expressions.
+        let grouped: Vec<bool> = it
+            .clone()
+            .map(|ex| ex.as_rule() == Rule::logical_or_expr && ex.as_str().starts_with('('))
+            .collect();
+
         let args: Result<Vec<_>, _> = it.map(|ex| self.parse_function_argument(ex)).collect();
 
         Ok(FilterExpression::Function {
             name: name.to_string(),
-            args: self.assert_well_typed(name, args?)?,
+            args: self.assert_well_typed(name, args?, &grouped)?,
         })
     }
 
@@ -521,6 +513,7 @@ impl JSONPathParser {
         &self,
         func_name: &str,
         args: Vec<FilterExpression>,
+        grouped: &[bool],
     ) -> Result<Vec<FilterExpression>, JSONPathError> {
         // TODO: accept span/position for better errors
         let signature = self
@@ -548,7 +541,7 @@ impl JSONPathParser {
             let arg = &args[idx];
             match typ {
                 ExpressionType::Value => {
-                    if !self.is_value_type(arg) {
+                    if grouped[idx] || !self.is_value_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Value' type",
                             idx + 1,
@@ -557,13 +550,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Logical => {
-                    if !matches!(
-                        arg,
-                        FilterExpression::RelativeQuery { .. }
-                            | FilterExpression::RootQuery { .. }
-                            | FilterExpression::Logical { .. }
-                            | FilterExpression::Comparison { .. },
-                    ) {
+                    if !self.is_logical_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Logical' type",
                             idx + 1,
@@ -572,7 +559,7 @@ impl JSONPathParser {
                     }
                 }
                 ExpressionType::Nodes => {
-                    if !self.is_nodes_type(arg) {
+                    if grouped[idx] || !self.is_nodes_type(arg) {
                         return Err(JSONPathError::typ(format!(
                             "argument {} of {}() must be of a 'Nodes' type",
                             idx + 1,
@@ -612,6 +599,27 @@ impl JSONPathParser {
         }
     }
 
+    fn is_logical_type(&self, expr: &FilterExpression) -> bool {
+        match expr {
+            FilterExpression::RelativeQuery { .. }
+            | FilterExpression::RootQuery { .. }
+            | FilterExpression::Not { .. }
+            | FilterExpression::Logical { .. }
+            | FilterExpression::Comparison { .. } => true,
+            FilterExpression::Function { name, .. } => {
+                // nodes will be coerced to a logical value
+                matches!(
+                    self.functions.get(name),
+                    Some(FunctionSignature {
+                        return_type: ExpressionType::Logical | ExpressionType::Nodes,
+                        ..
+                    })
+                )
+            }
+            _ => false,
+        }
+    }
+
     fn is_nodes_type(&self, expr: &FilterExpression) -> bool {
         match expr {
             FilterExpression::RelativeQuery { .. } | FilterExpression::RootQuery { .. } => true,
-- 
2.43.0


From 45cc5a5482efd312e5c820dedaba04769d202a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 06/17] fix: is_singular and is_empty ignore the end of input
 segment

---
 crates/jsonpath_rfc9535/src/query.rs              |  5 ++++-
 crates/jsonpath_rfc9535_iter/src/query.rs         | 15 +++++++++------
 crates/jsonpath_rfc9535_locations/src/query.rs    | 15 +++++++++------
 .../src/query.rs                                  | 15 +++++++++------
 4 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index cde1697..e46a83d 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -316,7 +316,10 @@ impl fmt::Display for FilterExpression {
                 f.write_char('"')
             }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
+            FilterExpression::Float { value, .. } => {
+                // negative zero is displayed as zero
+                write!(f, "{}", value + 0.0)
+            }
             FilterExpression::Not { expression, .. } => match **expression {
                 FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
                     write!(f, "!({expression})")
diff --git a/crates/jsonpath_rfc9535_iter/src/query.rs b/crates/jsonpath_rfc9535_iter/src/query.rs
index ef17568..8f67b09 100644
--- a/crates/jsonpath_rfc9535_iter/src/query.rs
+++ b/crates/jsonpath_rfc9535_iter/src/query.rs
@@ -23,18 +23,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 0f2c651..6d0694b 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -45,18 +45,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 0f2c651..6d0694b 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -45,18 +45,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
-- 
2.43.0


From 865a8eac759e0019ac6dff9ab0b74e26c9cb903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 07/17] fix: display escaped names and strings, negated
 comparisons and -0.0 in the pest crates

---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 21 +++++--
 crates/jsonpath_rfc9535_iter/src/selector.rs  | 26 +++++++-
 .../jsonpath_rfc9535_locations/src/filter.rs  | 24 ++++++--
 .../src/selector.rs                           | 26 +++++++-
 crates/jsonpath_rfc9535_pest/src/ast.rs       | 59 +++++++++++++++----
 .../src/ast.rs                                | 44 ++++++++++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 59 +++++++++++++++----
 .../src/filter.rs                             | 24 ++++++--
 .../src/selector.rs                           | 26 +++++++-
 9 files changed, 268 insertions(+), 41 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index c46c11c..8b9c12c 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -1,9 +1,10 @@
-use std::fmt;
+use std::fmt::{self, Write};
 
 use serde_json::Value;
 
 use crate::{
     env::Environment, function::ExpressionType, iter::QueryIter, node::NodeList, query::Query,
+    selector::write_escaped,
 };
 
 #[derive(Debug, Clone)]
@@ -141,10 +142,22 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, value, "'\\")?;
+                f.write_char('\'')
+            }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } => {
+                // negative zero is displayed as zero
+                write!(f, "{}", value + 0.0)
+            }
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 594295c..21ee37d 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -26,10 +26,34 @@ pub enum Selector {
     },
 }
 
+/// Write `value`, with control characters and characters in `special` escaped.
+pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+    for ch in value.chars() {
+        match ch {
+            '\x08' => f.write_str("\\b")?,
+            '\x0C' => f.write_str("\\f")?,
+            '\n' => f.write_str("\\n")?,
+            '\r' => f.write_str("\\r")?,
+            '\t' => f.write_str("\\t")?,
+            ch if (ch as u32) < 0x20 => write!(f, "\\u{:04x}", ch as u32)?,
+            ch if special.contains(ch) => {
+                f.write_char('\\')?;
+                f.write_char(ch)?;
+            }
+            ch => f.write_char(ch)?,
+        }
+    }
+    Ok(())
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, name, "'\\")?;
+                f.write_char('\'')
+            }
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 28b75f3..4da866d 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -1,8 +1,10 @@
-use std::fmt;
+use std::fmt::{self, Write};
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment, function::ExpressionType, node::NodeList, selector::write_escaped, Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,10 +141,22 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, value, "'\\")?;
+                f.write_char('\'')
+            }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } => {
+                // negative zero is displayed as zero
+                write!(f, "{}", value + 0.0)
+            }
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 9e3c6bf..16d836d 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -88,10 +88,34 @@ impl Selector {
     }
 }
 
+/// Write `value`, with control characters and characters in `special` escaped.
+pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+    for ch in value.chars() {
+        match ch {
+            '\x08' => f.write_str("\\b")?,
+            '\x0C' => f.write_str("\\f")?,
+            '\n' => f.write_str("\\n")?,
+            '\r' => f.write_str("\\r")?,
+            '\t' => f.write_str("\\t")?,
+            ch if (ch as u32) < 0x20 => write!(f, "\\u{:04x}", ch as u32)?,
+            ch if special.contains(ch) => {
+                f.write_char('\\')?;
+                f.write_char(ch)?;
+            }
+            ch => f.write_char(ch)?,
+        }
+    }
+    Ok(())
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, name, "'\\")?;
+                f.write_char('\'')
+            }
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index dc3779a..816443a 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -30,18 +30,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
@@ -116,10 +119,34 @@ pub enum Selector {
     },
 }
 
+/// Write `value`, with control characters and characters in `special` escaped.
+fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+    for ch in value.chars() {
+        match ch {
+            '\x08' => f.write_str("\\b")?,
+            '\x0C' => f.write_str("\\f")?,
+            '\n' => f.write_str("\\n")?,
+            '\r' => f.write_str("\\r")?,
+            '\t' => f.write_str("\\t")?,
+            ch if (ch as u32) < 0x20 => write!(f, "\\u{:04x}", ch as u32)?,
+            ch if special.contains(ch) => {
+                f.write_char('\\')?;
+                f.write_char(ch)?;
+            }
+            ch => f.write_char(ch)?,
+        }
+    }
+    Ok(())
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, name, "'\\")?;
+                f.write_char('\'')
+            }
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -241,10 +268,22 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, value, "\\")?;
+                f.write_char('\'')
+            }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } => {
+                // negative zero is displayed as zero
+                write!(f, "{}", value + 0.0)
+            }
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 5242985..167c906 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -175,10 +175,34 @@ impl fmt::Display for Segment {
     }
 }
 
+/// Write `value`, with control characters and characters in `special` escaped.
+fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+    for ch in value.chars() {
+        match ch {
+            '\x08' => f.write_str("\\b")?,
+            '\x0C' => f.write_str("\\f")?,
+            '\n' => f.write_str("\\n")?,
+            '\r' => f.write_str("\\r")?,
+            '\t' => f.write_str("\\t")?,
+            ch if (ch as u32) < 0x20 => write!(f, "\\u{:04x}", ch as u32)?,
+            ch if special.contains(ch) => {
+                f.write_char('\\')?;
+                f.write_char(ch)?;
+            }
+            ch => f.write_char(ch)?,
+        }
+    }
+    Ok(())
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, name, "'\\")?;
+                f.write_char('\'')
+            }
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -209,10 +233,22 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True_ { .. } => f.write_str("true"),
             FilterExpression::False_ { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::StringLiteral { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::StringLiteral { value, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, value, "\\")?;
+                f.write_char('\'')
+            }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } => {
+                // negative zero is displayed as zero
+                write!(f, "{}", value + 0.0)
+            }
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f2df9f5..94db8c5 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -142,18 +142,21 @@ impl Query {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.segments.is_empty()
+        self.segments
+            .iter()
+            .all(|segment| matches!(segment, Segment::Eoi))
     }
 
     pub fn is_singular(&self) -> bool {
-        self.segments.iter().all(|segment| {
-            if let Segment::Child { selectors, .. } = segment {
-                return selectors.len() == 1
+        self.segments.iter().all(|segment| match segment {
+            Segment::Child { selectors, .. } => {
+                selectors.len() == 1
                     && selectors.first().is_some_and(|selector| {
                         matches!(selector, Selector::Name { .. } | Selector::Index { .. })
-                    });
+                    })
             }
-            false
+            Segment::Recursive { .. } => false,
+            Segment::Eoi => true,
         })
     }
 }
@@ -409,10 +412,34 @@ impl Selector {
     }
 }
 
+/// Write `value`, with control characters and characters in `special` escaped.
+fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+    for ch in value.chars() {
+        match ch {
+            '\x08' => f.write_str("\\b")?,
+            '\x0C' => f.write_str("\\f")?,
+            '\n' => f.write_str("\\n")?,
+            '\r' => f.write_str("\\r")?,
+            '\t' => f.write_str("\\t")?,
+            ch if (ch as u32) < 0x20 => write!(f, "\\u{:04x}", ch as u32)?,
+            ch if special.contains(ch) => {
+                f.write_char('\\')?;
+                f.write_char(ch)?;
+            }
+            ch => f.write_char(ch)?,
+        }
+    }
+    Ok(())
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, name, "'\\")?;
+                f.write_char('\'')
+            }
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
@@ -612,10 +639,22 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, value, "'\\")?;
+                f.write_char('\'')
+            }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } => {
+                // negative zero is displayed as zero
+                write!(f, "{}", value + 0.0)
+            }
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 28b75f3..4da866d 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -1,8 +1,10 @@
-use std::fmt;
+use std::fmt::{self, Write};
 
 use serde_json::Value;
 
-use crate::{env::Environment, function::ExpressionType, node::NodeList, Query};
+use crate::{
+    env::Environment, function::ExpressionType, node::NodeList, selector::write_escaped, Query,
+};
 
 #[derive(Debug)]
 pub enum FilterExpression {
@@ -139,10 +141,22 @@ impl fmt::Display for FilterExpression {
             FilterExpression::True { .. } => f.write_str("true"),
             FilterExpression::False { .. } => f.write_str("false"),
             FilterExpression::Null { .. } => f.write_str("null"),
-            FilterExpression::String { value, .. } => write!(f, "'{value}'"),
+            FilterExpression::String { value, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, value, "'\\")?;
+                f.write_char('\'')
+            }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
-            FilterExpression::Float { value, .. } => write!(f, "{value}"),
-            FilterExpression::Not { expression, .. } => write!(f, "!{expression}"),
+            FilterExpression::Float { value, .. } => {
+                // negative zero is displayed as zero
+                write!(f, "{}", value + 0.0)
+            }
+            FilterExpression::Not { expression, .. } => match **expression {
+                FilterExpression::Not { .. } | FilterExpression::Comparison { .. } => {
+                    write!(f, "!({expression})")
+                }
+                _ => write!(f, "!{expression}"),
+            },
             FilterExpression::Logical {
                 left,
                 operator,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 4567474..2adf8e2 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -124,10 +124,34 @@ impl Selector {
     }
 }
 
+/// Write `value`, with control characters and characters in `special` escaped.
+pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+    for ch in value.chars() {
+        match ch {
+            '\x08' => f.write_str("\\b")?,
+            '\x0C' => f.write_str("\\f")?,
+            '\n' => f.write_str("\\n")?,
+            '\r' => f.write_str("\\r")?,
+            '\t' => f.write_str("\\t")?,
+            ch if (ch as u32) < 0x20 => write!(f, "\\u{:04x}", ch as u32)?,
+            ch if special.contains(ch) => {
+                f.write_char('\\')?;
+                f.write_char(ch)?;
+            }
+            ch => f.write_char(ch)?,
+        }
+    }
+    Ok(())
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-            Selector::Name { name, .. } => write!(f, "'{name}'"),
+            Selector::Name { name, .. } => {
+                f.write_char('\'')?;
+                write_escaped(f, name, "'\\")?;
+                f.write_char('\'')
+            }
             Selector::Index {
                 index: array_index, ..
             } => write!(f, "{array_index}"),
-- 
2.43.0


From 10f6047ce96a21d45fbcb8ecb8b82d976dc79d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 08/17] fix: start bounds of slices, and index overflow

---
 crates/jsonpath_rfc9535_iter/src/selector.rs              | 8 ++++----
 crates/jsonpath_rfc9535_locations/src/selector.rs         | 4 ++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                  | 8 ++++----
 crates/jsonpath_rfc9535_singular_selector/src/selector.rs | 4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index 21ee37d..cab3ef3 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -98,9 +98,9 @@ pub fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(i, if n_step < 0 { array_length - 1 } else { array_length })
             }
         }
         None => {
@@ -140,7 +140,7 @@ pub fn slice<'a>(
         let mut i = n_start;
         while i > n_stop {
             sliced_array.push((i, array.get(i as usize).unwrap()));
-            i += n_step;
+            i = i.saturating_add(n_step);
         }
     }
 
@@ -148,7 +148,7 @@ pub fn slice<'a>(
 }
 
 pub fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length as u64 >= index.unsigned_abs() {
         (length as i64 + index) as usize
     } else {
         index as usize
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 16d836d..2b5fde0 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -173,9 +173,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, if step < 0 { len - 1 } else { len })
             }
         }
         None => {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 94db8c5..a983547 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -744,9 +744,9 @@ fn slice<'a>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(array_length + i, 0)
+                cmp::max(array_length + i, if n_step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i, array_length - 1)
+                cmp::min(i, if n_step < 0 { array_length - 1 } else { array_length })
             }
         }
         None => {
@@ -786,7 +786,7 @@ fn slice<'a>(
         let mut i = n_start;
         while i > n_stop {
             sliced_array.push((i, array.get(i as usize).unwrap()));
-            i += n_step;
+            i = i.saturating_add(n_step);
         }
     }
 
@@ -914,7 +914,7 @@ fn unpack_result<'a>(
 }
 
 fn norm_index(index: i64, length: usize) -> usize {
-    if index < 0 && length >= index.abs() as usize {
+    if index < 0 && length as u64 >= index.unsigned_abs() {
         (length as i64 + index) as usize
     } else {
         index as usize
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 2adf8e2..23a124f 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -210,9 +210,9 @@ fn slice<'v>(
     let n_start = match start {
         Some(i) => {
             if i < 0 {
-                cmp::max(len + i as i128, 0)
+                cmp::max(len + i as i128, if step < 0 { -1 } else { 0 })
             } else {
-                cmp::min(i as i128, len - 1)
+                cmp::min(i as i128, if step < 0 { len - 1 } else { len })
             }
         }
         None => {
-- 
2.43.0


From bc29c93b7134cc767b6af3a865e34a2265654f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:42 +0000
Subject: [PATCH 09/17] fix: compare big integers, and numbers in arrays and
 objects, by value

---
 crates/jsonpath_rfc9535_iter/src/filter.rs    | 26 +++++++++++++++--
 .../jsonpath_rfc9535_locations/src/filter.rs  | 29 +++++++++++++++----
 crates/jsonpath_rfc9535_serde/src/ast.rs      | 26 +++++++++++++++--
 .../src/filter.rs                             | 29 +++++++++++++++----
 4 files changed, 94 insertions(+), 16 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 8b9c12c..e2a7909 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -272,7 +272,8 @@ impl<'v> FilterExpressionResult<'v> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // Too big for an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
@@ -363,12 +364,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Test two JSON values for equality, comparing numbers by value.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 4da866d..d3604ae 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -265,10 +265,10 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
@@ -359,12 +359,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Test two JSON values for equality, comparing numbers by value.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index a983547..a9ce971 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -78,7 +78,8 @@ impl<'a> FilterExpressionResult<'a> {
                 } else if n.is_i64() {
                     FilterExpressionResult::Int(n.as_i64().unwrap())
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap()) // XXX:
+                    // Too big for an i64
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
@@ -874,12 +875,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Test two JSON values for equality, comparing numbers by value.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 4da866d..d3604ae 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -265,10 +265,10 @@ impl<'a> FilterExpressionResult<'a> {
             Value::Bool(v) => FilterExpressionResult::Bool(*v),
             Value::Null => FilterExpressionResult::Null,
             Value::Number(n) => {
-                if n.is_f64() {
-                    FilterExpressionResult::Float(n.as_f64().unwrap())
+                if let Some(i) = n.as_i64() {
+                    FilterExpressionResult::Int(i)
                 } else {
-                    FilterExpressionResult::Int(n.as_i64().unwrap())
+                    FilterExpressionResult::Float(n.as_f64().unwrap())
                 }
             }
             Value::String(s) => FilterExpressionResult::String(s.to_owned()),
@@ -359,12 +359,31 @@ fn eq(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
         (FilterExpressionResult::Null, FilterExpressionResult::Null) => true,
         (FilterExpressionResult::Bool(l), FilterExpressionResult::Bool(r)) => l == r,
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l == r,
-        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => *l == *r,
-        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => *l == *r,
+        (FilterExpressionResult::Array(l), FilterExpressionResult::Array(r)) => json_eq(l, r),
+        (FilterExpressionResult::Object(l), FilterExpressionResult::Object(r)) => json_eq(l, r),
         _ => false,
     }
 }
 
+/// Test two JSON values for equality, comparing numbers by value.
+fn json_eq(left: &Value, right: &Value) -> bool {
+    match (left, right) {
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r).all(|(l, r)| json_eq(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| json_eq(l, r)))
+        }
+        (Value::Number(_), Value::Number(_)) => eq(
+            &FilterExpressionResult::from_json_value(left),
+            &FilterExpressionResult::from_json_value(right),
+        ),
+        _ => left == right,
+    }
+}
+
 fn lt(left: &FilterExpressionResult, right: &FilterExpressionResult) -> bool {
     match (left, right) {
         (FilterExpressionResult::String(l), FilterExpressionResult::String(r)) => l < r,
-- 
2.43.0


From 58bb7ee05cd6dffff69480dd7b2655084f611303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 10/17] fix: $ in a nested filter is the document root

---
 crates/jsonpath_rfc9535_iter/src/filter.rs          |  2 +-
 crates/jsonpath_rfc9535_iter/src/iter.rs            | 12 +++++++++++-
 crates/jsonpath_rfc9535_locations/src/filter.rs     |  2 +-
 crates/jsonpath_rfc9535_locations/src/query.rs      | 12 +++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs            | 13 ++++++++++---
 .../src/filter.rs                                   |  2 +-
 .../jsonpath_rfc9535_singular_selector/src/query.rs | 12 +++++++++++-
 7 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index e2a7909..66b7187 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -112,7 +112,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => FilterExpressionResult::Nodes(
-                QueryIter::new(env, current, *query.clone()).collect(),
+                QueryIter::from_value(env, root, current, *query.clone()).collect(),
             ),
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(QueryIter::new(env, root, *query.clone()).collect())
diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 795bbe6..82cc411 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -29,10 +29,20 @@ impl<'v> Iterator for QueryIter<'v> {
 
 impl<'v> QueryIter<'v> {
     pub fn new(env: &'static Environment, root: &'v Value, query: Query) -> Self {
+        Self::from_value(env, root, root, query)
+    }
+
+    /// Apply `query` to `value`, where `$` in a filter is `root`.
+    pub(crate) fn from_value(
+        env: &'static Environment,
+        root: &'v Value,
+        value: &'v Value,
+        query: Query,
+    ) -> Self {
         let init = SegmentIter {
             selectors: vec![].into_iter(),
             it: Box::new(iter::once(Rc::new(Node {
-                value: root,
+                value,
                 location: String::from("$"),
             }))),
         };
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index d3604ae..7cf1bed 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -111,7 +111,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, env, root))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_locations/src/query.rs b/crates/jsonpath_rfc9535_locations/src/query.rs
index 6d0694b..4fb1479 100644
--- a/crates/jsonpath_rfc9535_locations/src/query.rs
+++ b/crates/jsonpath_rfc9535_locations/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, env, value)
+    }
+
+    /// Apply this query to `value`, where `$` in a filter is `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        env: &'static Environment,
+        root: &'v Value,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index a9ce971..23d4094 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -108,8 +108,15 @@ impl Query {
         value: &'a Value,
         env: &'b Environment,
     ) -> Result<NodeList<'a>, JSONPathError> {
-        let context = QueryContext { root: value, env };
+        self.find_from(value, &QueryContext { root: value, env })
+    }
 
+    /// Apply this query to `value`, where `$` in a filter is the root of `context`.
+    fn find_from<'a>(
+        &self,
+        value: &'a Value,
+        context: &QueryContext,
+    ) -> Result<NodeList<'a>, JSONPathError> {
         let root_node = Node {
             value,
             location: String::from("$"),
@@ -118,7 +125,7 @@ impl Query {
         self.segments
             .iter()
             .try_fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, &context)
+                segment.resolve(nodes, context)
             })
     }
 
@@ -611,7 +618,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => Ok(FilterExpressionResult::Nodes(
-                query.find(current, context.env)?,
+                query.find_from(current, context)?,
             )),
             FilterExpression::RootQuery { query } => Ok(FilterExpressionResult::Nodes(
                 query.find(context.root, context.env)?,
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index d3604ae..7cf1bed 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -111,7 +111,7 @@ impl FilterExpression {
                 }
             }
             FilterExpression::RelativeQuery { query } => {
-                FilterExpressionResult::Nodes(query.find(current, env))
+                FilterExpressionResult::Nodes(query.find_from(current, env, root))
             }
             FilterExpression::RootQuery { query } => {
                 FilterExpressionResult::Nodes(query.find(root, env))
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/query.rs b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
index 6d0694b..4fb1479 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/query.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/query.rs
@@ -32,6 +32,16 @@ impl Query {
     }
 
     pub fn find<'v>(&self, value: &'v Value, env: &'static Environment) -> NodeList<'v> {
+        self.find_from(value, env, value)
+    }
+
+    /// Apply this query to `value`, where `$` in a filter is `root`.
+    pub(crate) fn find_from<'v>(
+        &self,
+        value: &'v Value,
+        env: &'static Environment,
+        root: &'v Value,
+    ) -> NodeList<'v> {
         let root_node = Node {
             value,
             location: ConsList::new(),
@@ -40,7 +50,7 @@ impl Query {
         self.segments
             .iter()
             .fold(vec![root_node], |nodes, segment| {
-                segment.resolve(nodes, env, value)
+                segment.resolve(nodes, env, root)
             })
     }
 
-- 
2.43.0


From f0718fd89514dcc70e5b1d6a49225eb58988b114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 11/17] fix: convert query arguments of LogicalType parameters

---
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 6 ++++--
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 6 ++++--
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 6 ++++--
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 66b7187..127d691 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -406,8 +406,10 @@ fn unpack_result<'v>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'v> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index 7cf1bed..e70828e 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -401,8 +401,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 23d4094..1f77466 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -924,8 +924,10 @@ fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> Result<FilterExpressionResult<'a>, JSONPathError> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return Ok(rv);
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return Ok(rv),
+        ExpressionType::Logical => return Ok(FilterExpressionResult::Bool(is_truthy(rv))),
+        ExpressionType::Value => (),
     }
 
     match &rv {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index 7cf1bed..e70828e 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -401,8 +401,10 @@ pub fn unpack_result<'a>(
     param_types: &[ExpressionType],
     index: usize,
 ) -> FilterExpressionResult<'a> {
-    if matches!(param_types.get(index).unwrap(), ExpressionType::Nodes) {
-        return rv;
+    match param_types.get(index).unwrap() {
+        ExpressionType::Nodes => return rv,
+        ExpressionType::Logical => return FilterExpressionResult::Bool(is_truthy(rv)),
+        ExpressionType::Value => (),
     }
 
     match &rv {
-- 
2.43.0


From b9ea2825a9a48b6d8b714521649ba66dbca08616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:59 +0000
Subject: [PATCH 12/17] fix: escape member names in normalized paths

---
 crates/jsonpath_rfc9535_iter/src/node.rs            |  4 +++-
 crates/jsonpath_rfc9535_iter/src/selector.rs        | 11 ++++++++++-
 crates/jsonpath_rfc9535_locations/src/node.rs       |  4 ++--
 crates/jsonpath_rfc9535_locations/src/selector.rs   | 11 ++++++++++-
 crates/jsonpath_rfc9535_serde/src/ast.rs            | 13 +++++++++++--
 .../jsonpath_rfc9535_singular_selector/src/node.rs  |  4 ++--
 .../src/selector.rs                                 | 11 ++++++++++-
 7 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/node.rs b/crates/jsonpath_rfc9535_iter/src/node.rs
index 9c523f2..3dbd154 100644
--- a/crates/jsonpath_rfc9535_iter/src/node.rs
+++ b/crates/jsonpath_rfc9535_iter/src/node.rs
@@ -2,6 +2,8 @@ use std::rc::Rc;
 
 use serde_json::Value;
 
+use crate::selector::normalized_name;
+
 #[derive(Debug, Clone, PartialEq)]
 pub struct Node<'a> {
     pub value: &'a Value,
@@ -12,7 +14,7 @@ impl<'a> Node<'a> {
     pub fn new_child_member(&self, value: &'a Value, loc: &str) -> Rc<Self> {
         Rc::new(Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}{}", self.location, normalized_name(loc)),
         })
     }
 
diff --git a/crates/jsonpath_rfc9535_iter/src/selector.rs b/crates/jsonpath_rfc9535_iter/src/selector.rs
index cab3ef3..d9aab1d 100644
--- a/crates/jsonpath_rfc9535_iter/src/selector.rs
+++ b/crates/jsonpath_rfc9535_iter/src/selector.rs
@@ -27,7 +27,7 @@ pub enum Selector {
 }
 
 /// Write `value`, with control characters and characters in `special` escaped.
-pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+pub(crate) fn write_escaped<W: Write>(f: &mut W, value: &str, special: &str) -> fmt::Result {
     for ch in value.chars() {
         match ch {
             '\x08' => f.write_str("\\b")?,
@@ -46,6 +46,15 @@ pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &s
     Ok(())
 }
 
+/// Return `name` as a name selector in a normalized path.
+pub(crate) fn normalized_name(name: &str) -> String {
+    let mut rv = String::from("['");
+    // writing to a string does not fail
+    let _ = write_escaped(&mut rv, name, "'\\");
+    rv.push_str("']");
+    rv
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
diff --git a/crates/jsonpath_rfc9535_locations/src/node.rs b/crates/jsonpath_rfc9535_locations/src/node.rs
index 4830840..75a6285 100644
--- a/crates/jsonpath_rfc9535_locations/src/node.rs
+++ b/crates/jsonpath_rfc9535_locations/src/node.rs
@@ -1,6 +1,6 @@
 use std::{collections::VecDeque, iter};
 
-use crate::conslist::ConsList;
+use crate::{conslist::ConsList, selector::normalized_name};
 use serde_json::Value;
 
 pub type Location = ConsList<PathElement>;
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => normalized_name(s),
                 }))
                 .into_iter()
                 .rev(),
diff --git a/crates/jsonpath_rfc9535_locations/src/selector.rs b/crates/jsonpath_rfc9535_locations/src/selector.rs
index 2b5fde0..016dd5b 100644
--- a/crates/jsonpath_rfc9535_locations/src/selector.rs
+++ b/crates/jsonpath_rfc9535_locations/src/selector.rs
@@ -89,7 +89,7 @@ impl Selector {
 }
 
 /// Write `value`, with control characters and characters in `special` escaped.
-pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+pub(crate) fn write_escaped<W: Write>(f: &mut W, value: &str, special: &str) -> fmt::Result {
     for ch in value.chars() {
         match ch {
             '\x08' => f.write_str("\\b")?,
@@ -108,6 +108,15 @@ pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &s
     Ok(())
 }
 
+/// Return `name` as a name selector in a normalized path.
+pub(crate) fn normalized_name(name: &str) -> String {
+    let mut rv = String::from("['");
+    // writing to a string does not fail
+    let _ = write_escaped(&mut rv, name, "'\\");
+    rv.push_str("']");
+    rv
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index 1f77466..f14d1a5 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -34,7 +34,7 @@ impl<'a> Node<'a> {
     fn new_child_member(&self, value: &'a Value, loc: &str) -> Self {
         Node {
             value,
-            location: format!("{}['{}']", self.location, loc),
+            location: format!("{}{}", self.location, normalized_name(loc)),
         }
     }
 
@@ -421,7 +421,7 @@ impl Selector {
 }
 
 /// Write `value`, with control characters and characters in `special` escaped.
-fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+fn write_escaped<W: Write>(f: &mut W, value: &str, special: &str) -> fmt::Result {
     for ch in value.chars() {
         match ch {
             '\x08' => f.write_str("\\b")?,
@@ -440,6 +440,15 @@ fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt:
     Ok(())
 }
 
+/// Return `name` as a name selector in a normalized path.
+fn normalized_name(name: &str) -> String {
+    let mut rv = String::from("['");
+    // writing to a string does not fail
+    let _ = write_escaped(&mut rv, name, "'\\");
+    rv.push_str("']");
+    rv
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/node.rs b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
index 4830840..75a6285 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/node.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/node.rs
@@ -1,6 +1,6 @@
 use std::{collections::VecDeque, iter};
 
-use crate::conslist::ConsList;
+use crate::{conslist::ConsList, selector::normalized_name};
 use serde_json::Value;
 
 pub type Location = ConsList<PathElement>;
@@ -40,7 +40,7 @@ impl<'v> Node<'v> {
             .chain(
                 VecDeque::from_iter(self.location.iter().map(|e| match e {
                     PathElement::Index(i) => format!("[{}]", i),
-                    PathElement::Name(s) => format!("['{}']", s),
+                    PathElement::Name(s) => normalized_name(s),
                 }))
                 .into_iter()
                 .rev(),
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
index 23a124f..30c8522 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/selector.rs
@@ -125,7 +125,7 @@ impl Selector {
 }
 
 /// Write `value`, with control characters and characters in `special` escaped.
-pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &str) -> fmt::Result {
+pub(crate) fn write_escaped<W: Write>(f: &mut W, value: &str, special: &str) -> fmt::Result {
     for ch in value.chars() {
         match ch {
             '\x08' => f.write_str("\\b")?,
@@ -144,6 +144,15 @@ pub(crate) fn write_escaped(f: &mut fmt::Formatter<'_>, value: &str, special: &s
     Ok(())
 }
 
+/// Return `name` as a name selector in a normalized path.
+pub(crate) fn normalized_name(name: &str) -> String {
+    let mut rv = String::from("['");
+    // writing to a string does not fail
+    let _ = write_escaped(&mut rv, name, "'\\");
+    rv.push_str("']");
+    rv
+}
+
 impl fmt::Display for Selector {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
-- 
2.43.0


From c26ed27d16643064eef3366d7988776dc0fd4a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:04 +0000
Subject: [PATCH 13/17] fix: query iterators do not recurse for each skipped
 value

---
 crates/jsonpath_rfc9535_iter/src/iter.rs | 38 ++++++++----------------
 1 file changed, 13 insertions(+), 25 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/iter.rs b/crates/jsonpath_rfc9535_iter/src/iter.rs
index 82cc411..ba85b77 100644
--- a/crates/jsonpath_rfc9535_iter/src/iter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/iter.rs
@@ -67,15 +67,11 @@ pub struct SegmentIter<'v> {
 impl<'v> Iterator for SegmentIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some(v) => Some(v),
-            None => match self.selectors.next() {
-                Some(it) => {
-                    self.it = Box::new(it);
-                    self.next()
-                }
-                None => None,
-            },
+        loop {
+            match self.it.next() {
+                Some(v) => return Some(v),
+                None => self.it = Box::new(self.selectors.next()?),
+            }
         }
     }
 }
@@ -210,15 +206,11 @@ pub struct ArrayFilterIter<'v> {
 impl<'v> Iterator for ArrayFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((index, value)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
-                    Some(self.parent.new_child_element(value, index))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (index, value) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, value)) {
+                return Some(self.parent.new_child_element(value, index));
             }
-            None => None,
         }
     }
 }
@@ -252,15 +244,11 @@ pub struct ObjectFilterIter<'v> {
 impl<'v> Iterator for ObjectFilterIter<'v> {
     type Item = Rc<Node<'v>>;
     fn next(&mut self) -> Option<Self::Item> {
-        match self.it.next() {
-            Some((k, v)) => {
-                if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
-                    Some(self.parent.new_child_member(v, k))
-                } else {
-                    self.next()
-                }
+        loop {
+            let (k, v) = self.it.next()?;
+            if is_truthy(self.expr.evaluate(self.env, self.root, v)) {
+                return Some(self.parent.new_child_member(v, k));
             }
-            None => None,
         }
     }
 }
-- 
2.43.0


From cac2d36966aff66494cae2a771cacbeab4167c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 14/17] fix: full match of anchored patterns, dots and class
 operators in regexes

---
 .../src/standard_functions.rs                 | 77 ++++++++-----------
 .../src/standard_functions.rs                 | 77 ++++++++-----------
 .../src/standard_functions.rs                 | 77 ++++++++-----------
 .../src/standard_functions.rs                 | 77 ++++++++-----------
 4 files changed, 136 insertions(+), 172 deletions(-)

diff --git a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
index 754ca17..e51a8a4 100644
--- a/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_iter/src/standard_functions.rs
@@ -221,51 +221,42 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an I-Regexp pattern to a pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // A dot does not match a carriage return or a line feed.
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // Repeated, these are set operators in a regex character class.
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => {
+                match c {
+                    '\\' => escaped = true,
+                    '[' => char_class = true,
+                    ']' => char_class = false,
+                    _ => (),
+                }
+                mapped.push(c);
+            }
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
index b756c33..6126aec 100644
--- a/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_locations/src/standard_functions.rs
@@ -221,51 +221,42 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an I-Regexp pattern to a pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // A dot does not match a carriage return or a line feed.
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // Repeated, these are set operators in a regex character class.
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => {
+                match c {
+                    '\\' => escaped = true,
+                    '[' => char_class = true,
+                    ']' => char_class = false,
+                    _ => (),
+                }
+                mapped.push(c);
+            }
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
index db7f233..4a5d0c6 100644
--- a/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_serde/src/standard_functions.rs
@@ -221,51 +221,42 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an I-Regexp pattern to a pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // A dot does not match a carriage return or a line feed.
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // Repeated, these are set operators in a regex character class.
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => {
+                match c {
+                    '\\' => escaped = true,
+                    '[' => char_class = true,
+                    ']' => char_class = false,
+                    _ => (),
+                }
+                mapped.push(c);
+            }
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
index b756c33..6126aec 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/standard_functions.rs
@@ -221,51 +221,42 @@ impl FunctionExtension for Value {
     }
 }
 
-/// Map re pattern to i-regexp pattern.
+/// Map an I-Regexp pattern to a pattern for the regex crate.
 fn map_regex(pattern: &str) -> String {
-    // let mut escaped = false;
-    // let mut char_class = false;
-    // let mut parts: Vec<String> = Vec::new();
-
-    // for c in pattern.chars() {
-    //     if escaped {
-    //         parts.push(String::from(c));
-    //         escaped = false;
-    //         continue;
-    //     }
-
-    //     match c {
-    //         '.' => {
-    //             if !char_class {
-    //                 parts.push(String::from("(?:(?![\r\n])\\P{Cs}|\\p{Cs}\\p{Cs})"));
-    //             } else {
-    //                 parts.push(String::from(c));
-    //             }
-    //         }
-    //         '\\' => {
-    //             escaped = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         '[' => {
-    //             char_class = true;
-    //             parts.push(String::from(c));
-    //         }
-    //         ']' => {
-    //             char_class = false;
-    //             parts.push(String::from(c));
-    //         }
-    //         _ => parts.push(String::from(c)),
-    //     }
-    // }
-
-    // parts.join("");
-    pattern.to_owned()
+    let mut escaped = false;
+    let mut char_class = false;
+    let mut mapped = String::with_capacity(pattern.len());
+
+    for c in pattern.chars() {
+        if escaped {
+            mapped.push(c);
+            escaped = false;
+            continue;
+        }
+
+        match c {
+            // A dot does not match a carriage return or a line feed.
+            '.' if !char_class => mapped.push_str("[^\\n\\r]"),
+            // Repeated, these are set operators in a regex character class.
+            '&' | '~' if char_class => {
+                mapped.push('\\');
+                mapped.push(c);
+            }
+            _ => {
+                match c {
+                    '\\' => escaped = true,
+                    '[' => char_class = true,
+                    ']' => char_class = false,
+                    _ => (),
+                }
+                mapped.push(c);
+            }
+        }
+    }
+
+    mapped
 }
 
 fn full_match(pattern: &str) -> String {
-    if !pattern.starts_with('^') && !pattern.ends_with('$') {
-        map_regex(&format!("^(?:{})$", pattern))
-    } else {
-        map_regex(pattern)
-    }
+    format!("^(?:{})$", map_regex(pattern))
 }
-- 
2.43.0


From 625dd93dc44c218b3783f49736e53316ba521668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 15/17] fix: a function named like a keyword is an unknown
 function

---
 crates/jsonpath_rfc9535/src/lexer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/lexer.rs b/crates/jsonpath_rfc9535/src/lexer.rs
index 9b5a264..3364a16 100644
--- a/crates/jsonpath_rfc9535/src/lexer.rs
+++ b/crates/jsonpath_rfc9535/src/lexer.rs
@@ -590,12 +590,13 @@ fn lex_inside_filter(l: &mut Lexer) -> State {
             } else if l.accept_run(is_function_name_first) {
                 // function name or keyword
                 l.accept_run(is_function_name_char);
+                let call = l.peek() == '(';
                 match l.value() {
-                    "true" => l.emit(TokenType::True),
-                    "false" => l.emit(TokenType::False),
-                    "null" => l.emit(TokenType::Null),
+                    "true" if !call => l.emit(TokenType::True),
+                    "false" if !call => l.emit(TokenType::False),
+                    "null" if !call => l.emit(TokenType::Null),
                     _ => {
-                        if l.peek() == '(' {
+                        if call {
                             // a function call
                             if let Some(stack) = l.paren_stack() {
                                 stack.push(1);
-- 
2.43.0


From af6678d30d059911fe166bcc75b9f48202efc5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:17 +0000
Subject: [PATCH 16/17] fix: display number literals out of range as valid
 literals

---
 crates/jsonpath_rfc9535/src/query.rs                    | 4 ++++
 crates/jsonpath_rfc9535_iter/src/filter.rs              | 4 ++++
 crates/jsonpath_rfc9535_locations/src/filter.rs         | 4 ++++
 crates/jsonpath_rfc9535_pest/src/ast.rs                 | 4 ++++
 crates/jsonpath_rfc9535_pest_recursive/src/ast.rs       | 4 ++++
 crates/jsonpath_rfc9535_serde/src/ast.rs                | 4 ++++
 crates/jsonpath_rfc9535_singular_selector/src/filter.rs | 4 ++++
 7 files changed, 28 insertions(+)

diff --git a/crates/jsonpath_rfc9535/src/query.rs b/crates/jsonpath_rfc9535/src/query.rs
index e46a83d..9ce2bb0 100644
--- a/crates/jsonpath_rfc9535/src/query.rs
+++ b/crates/jsonpath_rfc9535/src/query.rs
@@ -317,6 +317,10 @@ impl fmt::Display for FilterExpression {
             }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => {
+                if value.is_infinite() {
+                    // out of range, but a valid number literal
+                    return f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" });
+                }
                 // negative zero is displayed as zero
                 write!(f, "{}", value + 0.0)
             }
diff --git a/crates/jsonpath_rfc9535_iter/src/filter.rs b/crates/jsonpath_rfc9535_iter/src/filter.rs
index 127d691..135c1f9 100644
--- a/crates/jsonpath_rfc9535_iter/src/filter.rs
+++ b/crates/jsonpath_rfc9535_iter/src/filter.rs
@@ -149,6 +149,10 @@ impl fmt::Display for FilterExpression {
             }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => {
+                if value.is_infinite() {
+                    // out of range, but a valid number literal
+                    return f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" });
+                }
                 // negative zero is displayed as zero
                 write!(f, "{}", value + 0.0)
             }
diff --git a/crates/jsonpath_rfc9535_locations/src/filter.rs b/crates/jsonpath_rfc9535_locations/src/filter.rs
index e70828e..4a6a4ca 100644
--- a/crates/jsonpath_rfc9535_locations/src/filter.rs
+++ b/crates/jsonpath_rfc9535_locations/src/filter.rs
@@ -148,6 +148,10 @@ impl fmt::Display for FilterExpression {
             }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => {
+                if value.is_infinite() {
+                    // out of range, but a valid number literal
+                    return f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" });
+                }
                 // negative zero is displayed as zero
                 write!(f, "{}", value + 0.0)
             }
diff --git a/crates/jsonpath_rfc9535_pest/src/ast.rs b/crates/jsonpath_rfc9535_pest/src/ast.rs
index 816443a..a358b93 100644
--- a/crates/jsonpath_rfc9535_pest/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest/src/ast.rs
@@ -275,6 +275,10 @@ impl fmt::Display for FilterExpression {
             }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => {
+                if value.is_infinite() {
+                    // out of range, but a valid number literal
+                    return f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" });
+                }
                 // negative zero is displayed as zero
                 write!(f, "{}", value + 0.0)
             }
diff --git a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
index 167c906..713a033 100644
--- a/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
+++ b/crates/jsonpath_rfc9535_pest_recursive/src/ast.rs
@@ -240,6 +240,10 @@ impl fmt::Display for FilterExpression {
             }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => {
+                if value.is_infinite() {
+                    // out of range, but a valid number literal
+                    return f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" });
+                }
                 // negative zero is displayed as zero
                 write!(f, "{}", value + 0.0)
             }
diff --git a/crates/jsonpath_rfc9535_serde/src/ast.rs b/crates/jsonpath_rfc9535_serde/src/ast.rs
index f14d1a5..ee304cb 100644
--- a/crates/jsonpath_rfc9535_serde/src/ast.rs
+++ b/crates/jsonpath_rfc9535_serde/src/ast.rs
@@ -663,6 +663,10 @@ impl fmt::Display for FilterExpression {
             }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => {
+                if value.is_infinite() {
+                    // out of range, but a valid number literal
+                    return f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" });
+                }
                 // negative zero is displayed as zero
                 write!(f, "{}", value + 0.0)
             }
diff --git a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
index e70828e..4a6a4ca 100644
--- a/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
+++ b/crates/jsonpath_rfc9535_singular_selector/src/filter.rs
@@ -148,6 +148,10 @@ impl fmt::Display for FilterExpression {
             }
             FilterExpression::Int { value, .. } => write!(f, "{value}"),
             FilterExpression::Float { value, .. } => {
+                if value.is_infinite() {
+                    // out of range, but a valid number literal
+                    return f.write_str(if *value < 0.0 { "-1e999" } else { "1e999" });
+                }
                 // negative zero is displayed as zero
                 write!(f, "{}", value + 0.0)
             }
-- 
2.43.0


From c3ee1610383cca124fa4d90b64158e68f5807e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 17/17] fix: show the colon, <= and || tokens as they are
 written in error messages

---
 crates/jsonpath_rfc9535/src/token.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jsonpath_rfc9535/src/token.rs b/crates/jsonpath_rfc9535/src/token.rs
index 7c202ff..4e52346 100644
--- a/crates/jsonpath_rfc9535/src/token.rs
+++ b/crates/jsonpath_rfc9535/src/token.rs
@@ -45,7 +45,7 @@ impl fmt::Display for TokenType {
         match self {
             TokenType::Eoq => f.write_str("`end of query`"),
             TokenType::Error { msg } => write!(f, "error: {}", *msg),
-            TokenType::Colon => f.write_str("`;`"),
+            TokenType::Colon => f.write_str("`:`"),
             TokenType::Comma => f.write_str("`,`"),
             TokenType::DoubleDot => f.write_str("`..`"),
             TokenType::Filter => f.write_str("`?`"),
@@ -65,13 +65,13 @@ impl fmt::Display for TokenType {
             TokenType::Ge => f.write_str("`>=`"),
             TokenType::Gt => f.write_str("`>`"),
             TokenType::Int { value } => write!(f, "{}", *value),
-            TokenType::Le => f.write_str("<=`"),
+            TokenType::Le => f.write_str("`<=`"),
             TokenType::LParen => f.write_str("`(`"),
             TokenType::Lt => f.write_str("`<`"),
             TokenType::Ne => f.write_str("`!=`"),
             TokenType::Not => f.write_str("`!`"),
             TokenType::Null => f.write_str("`null`"),
-            TokenType::Or => f.write_str("`or`"),
+            TokenType::Or => f.write_str("`||`"),
             TokenType::RParen => f.write_str("`)`"),
             TokenType::SingleQuoteString { value } => write!(f, "`{}`", *value),
             TokenType::True => f.write_str("`true`"),
-- 
2.43.0

