From 66343f40aca611c7015c587d2f613b0792b504a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 01/13] fix: parsing an empty expression no longer underflows
 the error span

---
 src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index dd92346..4b38858 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -566,7 +566,8 @@ impl ParseError {
             kind: ErrorKind::UnexpectedEndOfExpression,
             // - 1 because we want to point to the last character
             // (without it, we would point to a `None` value)
-            span: (parser.cursor - 1).into(),
+            // saturating because the input might be empty
+            span: parser.cursor.saturating_sub(1).into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
     }
-- 
2.43.0


From 8babbec3bf32411b55056a2bbfdf765c1a8f3a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 02/13] fix: `!` is never parsed as a binary operator

---
 src/token/operator.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/token/operator.rs b/src/token/operator.rs
index e7a4d90..1edd932 100644
--- a/src/token/operator.rs
+++ b/src/token/operator.rs
@@ -28,7 +28,6 @@ impl TryFrom<u8> for Operator {
     /// Valid operators are: '+', '-', '*', '/', '^', '%'.
     fn try_from(value: u8) -> Result<Self, Self::Error> {
         match value {
-            b'!' => Ok(Self::Factorial),
             b'+' => Ok(Self::Plus),
             b'-' => Ok(Self::Minus),
             b'*' => Ok(Self::Times),
-- 
2.43.0


From f7474ec6318bdc54efe8356c810f6a67fcfc5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 03/13] fix: implicit multiplication checks the previous token,
 not the whole left operand

---
 src/parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4b38858..a8b998a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -118,6 +118,8 @@ struct ParserImpl<'input, 'ctx> {
     cursor: usize,
     /// The context of the parser.
     ctx: &'ctx Context<'ctx>,
+    /// Whether the last parsed token is a number literal.
+    after_number: bool,
 }
 
 impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
@@ -127,6 +129,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             input: input.as_bytes(),
             cursor: 0,
             ctx,
+            after_number: false,
         }
     }
 
@@ -166,12 +169,13 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
 
         // Right-associative unary operators
         if self.consume_if_eq(b'!') {
+            self.after_number = false;
             el = UnOp::new_element(Operator::Factorial, el);
         }
 
         // BinOp with higher precedence
         while let Some((op, op_precedence)) =
-            self.get_operator_infos(&el, precedence)
+            self.get_operator_infos(precedence)
         {
             let rhs = self.element(op_precedence)?;
             el = BinOp::new_element(op, el, rhs);
@@ -212,6 +216,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
                 self.cursor += 1;
                 let el = self.element(precedence::NO_PRECEDENCE)?;
                 self.assert_eq_consume(b')')?;
+                self.after_number = false;
                 el
             },
             /* Errors */
@@ -276,6 +281,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             },
         };
 
+        self.after_number = false;
         Ok(el)
     }
 
@@ -307,6 +313,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             |_err| ParseError::new_malformed_number(self, ident),
         )?;
 
+        self.after_number = true;
         Ok(Element::Number(num))
     }
 
@@ -405,7 +412,6 @@ impl ParserImpl<'_, '_> {
     /// Returns the operator and its precedence if it's a valid operator.
     fn get_operator_infos(
         &mut self,
-        current_atom: &Element<'_>,
         precedence: usize,
     ) -> Option<(Operator, usize)> {
         use precedence::IMPLICIT_MULTIPLICATION_INFO;
@@ -429,8 +435,8 @@ impl ParserImpl<'_, '_> {
             // we can consider its an implicit multiplication
             b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
             // if it's a number implicit multiplication is
-            // only possible if previous atom isn't a number
-            b'0'..=b'9' if !matches!(*current_atom, Element::Number(_)) => {
+            // only possible if previous token isn't a number
+            b'0'..=b'9' if !self.after_number => {
                 Some(IMPLICIT_MULTIPLICATION_INFO)
             },
             _ => None,
-- 
2.43.0


From d46c6941b72ffca1fe357645faa6f8b3cfd3ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 04/13] fix: implicit multiplication accepts identifiers
 starting with an uppercase letter

---
 src/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a8b998a..d1f255c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -433,7 +433,9 @@ impl ParserImpl<'_, '_> {
             _ if IMPLICIT_MULTIPLICATION_INFO.1 <= precedence => None,
             // if it's an identifier or an opening parenthesis
             // we can consider its an implicit multiplication
-            b'a'..=b'z' | b'(' => Some(IMPLICIT_MULTIPLICATION_INFO),
+            b'A'..=b'Z' | b'a'..=b'z' | b'(' => {
+                Some(IMPLICIT_MULTIPLICATION_INFO)
+            },
             // if it's a number implicit multiplication is
             // only possible if previous token isn't a number
             b'0'..=b'9' if !self.after_number => {
-- 
2.43.0


From 1f5fc12639957123bb26d4f379b9d8156256b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 05/13] fix: errors report the offending character, not the
 first byte of its encoding

---
 src/parser.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d1f255c..1648389 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -393,6 +393,16 @@ impl ParserImpl<'_, '_> {
         self.input.get(self.cursor)
     }
 
+    /// Returns the (maybe multibyte) character under the cursor,
+    /// falls back on the given byte if there is none.
+    fn char_or(&self, tok: u8) -> char {
+        self.input
+            .get(self.cursor..)
+            .and_then(|rest| str::from_utf8(rest).ok())
+            .and_then(|rest| rest.chars().next())
+            .unwrap_or(char::from(tok))
+    }
+
     /// Returns the current character after trimming whitespaces.
     fn next_trim(&mut self) -> Option<&u8> {
         self.skip_while(u8::is_ascii_whitespace);
@@ -584,7 +594,7 @@ impl ParseError {
     #[cold]
     fn new_unexpected_token(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::UnexpectedToken(char::from(tok)),
+            kind: ErrorKind::UnexpectedToken(parser.char_or(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
@@ -605,7 +615,7 @@ impl ParseError {
     #[cold]
     fn new_illegal_character(parser: &ParserImpl, tok: u8) -> Self {
         Self {
-            kind: ErrorKind::IllegalCharacter(char::from(tok)),
+            kind: ErrorKind::IllegalCharacter(parser.char_or(tok)),
             span: parser.cursor.into(),
             src: trust_me!(str::from_utf8_unchecked(parser.input)).to_owned(),
         }
-- 
2.43.0


From 20e683c3cf3af707ee6b9727ef26feaa9d51d6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 06/13] fix: binding an expression with more than 255 missing
 variables is an error

---
 src/xprs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index 3ef4b7f..c8df651 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -747,7 +747,7 @@ impl BindError {
         missing_vars: Difference<'_, &str, RandomState>,
     ) -> Option<Self> {
         let mut peekable = missing_vars.peekable();
-        let mut count: u8 = 0;
+        let mut count: usize = 0;
         let mut missing_vars_str = String::new();
         while let Some(missing_var) = peekable.next() {
             count += 1;
-- 
2.43.0


From 41dd14b2d2d641e2d3809028bc4aa72578895a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 07/13] fix: simplification no longer changes the value of the
 expression

Constants are folded before any other rule (`-1 / 0`, `0 ^ -1`, ...), the
rules that don't hold (`a / 0 => inf`, `0 ^ a => 0`, `a % 1 => 0`) are gone
and `a ^ 0 => 1` matches powers.
---
 src/element/simplify.rs | 50 ++++++++++++++++-------------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/src/element/simplify.rs b/src/element/simplify.rs
index 12c2151..8d53bb6 100644
--- a/src/element/simplify.rs
+++ b/src/element/simplify.rs
@@ -50,6 +50,24 @@ impl<'a> Simplify<'a> for BinOp<'a> {
         self.lhs = self.lhs.simplify();
         self.rhs = self.rhs.simplify();
         match self {
+            /////////////////////////// 2 Numbers ///////////////////////////
+            BinOp {
+                op,
+                rhs: Number(rhs),
+                lhs: Number(lhs),
+            } => {
+                #[allow(clippy::unreachable)]
+                let result = match op {
+                    Plus => lhs + rhs,
+                    Minus => lhs - rhs,
+                    Times => lhs * rhs,
+                    Divide => lhs / rhs,
+                    Power => lhs.powf(rhs),
+                    Modulo => lhs % rhs,
+                    Factorial => unreachable!(),
+                };
+                Number(result)
+            },
             /////////////////////////// Additions ///////////////////////////
             // 0 + a => a
             BinOp { op: Plus, lhs, rhs } if lhs == Number(0.0) => rhs,
@@ -141,10 +159,6 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Divide, lhs, ..
             } if lhs == Number(0.0) => Number(0.0),
-            // a / 0 => inf
-            BinOp {
-                op: Divide, rhs, ..
-            } if rhs == Number(0.0) => Number(f64::INFINITY),
             // a / 1 => a
             BinOp {
                 op: Divide,
@@ -180,12 +194,8 @@ impl<'a> Simplify<'a> for BinOp<'a> {
                 lhs,
                 rhs,
             } if lhs == Number(0.0) && rhs == Number(0.0) => Number(1.0),
-            // 0 ^ a => 0
-            BinOp { op: Power, lhs, .. } if lhs == Number(0.0) => Number(0.0),
             // a ^ 0 => 1
-            BinOp {
-                op: Divide, rhs, ..
-            } if rhs == Number(0.0) => Number(1.0),
+            BinOp { op: Power, rhs, .. } if rhs == Number(0.0) => Number(1.0),
             // a ^ 1 => a
             BinOp {
                 op: Power,
@@ -207,34 +217,12 @@ impl<'a> Simplify<'a> for BinOp<'a> {
             BinOp {
                 op: Modulo, rhs, ..
             } if rhs == Number(0.0) => Number(f64::NAN),
-            // a % 1 => 0
-            BinOp {
-                op: Modulo, rhs, ..
-            } if rhs == Number(1.0) => Number(0.0),
             // a % a => 0
             BinOp {
                 op: Modulo,
                 lhs,
                 rhs,
             } if lhs == rhs => Number(0.0),
-            /////////////////////////// 2 Numbers ///////////////////////////
-            BinOp {
-                op,
-                rhs: Number(rhs),
-                lhs: Number(lhs),
-            } => {
-                #[allow(clippy::unreachable)]
-                let result = match op {
-                    Plus => lhs + rhs,
-                    Minus => lhs - rhs,
-                    Times => lhs * rhs,
-                    Divide => lhs / rhs,
-                    Power => lhs.powf(rhs),
-                    Modulo => lhs % rhs,
-                    Factorial => unreachable!(),
-                };
-                Number(result)
-            },
             _ => self.into(),
         }
     }
-- 
2.43.0


From ae4c6c9cf56ecbf180a36641997e68528f9c259e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 08/13] fix: simplifying in place no longer double drops if a
 function panics

---
 src/xprs.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index c8df651..b153604 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -1,7 +1,7 @@
 /* Clippy Config */
 #![allow(clippy::std_instead_of_core)]
 /* Built-in imports */
-use core::{fmt, ptr};
+use core::{fmt, mem};
 use std::collections::{HashMap, HashSet};
 /* Crate imports */
 use crate::{
@@ -10,7 +10,7 @@ use crate::{
     token::Operator,
     utils::{
         factorial::factorial,
-        hidden_macros::{trust_me, yeet},
+        hidden_macros::yeet,
     },
 };
 
@@ -141,9 +141,9 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_in_place(&mut self, var: (&str, f64)) {
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
         tmp = tmp.simplify_for(var);
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = tmp;
         self.vars.remove(var.0);
     }
 
@@ -217,13 +217,13 @@ impl Xprs<'_> {
     /// ```
     #[inline]
     pub fn simplify_for_multiple_in_place(&mut self, vars: &[(&str, f64)]) {
-        // rewriting `simplify_for_in_place` to avoid dozens of `ptr::read` and `ptr::write`
-        let mut tmp = trust_me!(ptr::read(&self.root));
+        // rewriting `simplify_for_in_place` to avoid dozens of `mem::replace`
+        let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
         for &var in vars {
             tmp = tmp.simplify_for(var);
             self.vars.remove(var.0);
         }
-        trust_me!(ptr::write(&mut self.root, tmp););
+        self.root = tmp;
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
-- 
2.43.0


From 7d52da1764073c81ee1ec543833ad78fe4037e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 09/13] fix: `vars` is the set of remaining variables after a
 simplification

---
 src/xprs.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/xprs.rs b/src/xprs.rs
index b153604..2fd88db 100644
--- a/src/xprs.rs
+++ b/src/xprs.rs
@@ -144,7 +144,7 @@ impl Xprs<'_> {
         let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
         tmp = tmp.simplify_for(var);
         self.root = tmp;
-        self.vars.remove(var.0);
+        self.update_vars();
     }
 
     /// Simple wrapper around [`Xprs::eval`] that doesn't require any variables.
@@ -221,9 +221,9 @@ impl Xprs<'_> {
         let mut tmp = mem::replace(&mut self.root, Element::Number(f64::NAN));
         for &var in vars {
             tmp = tmp.simplify_for(var);
-            self.vars.remove(var.0);
         }
         self.root = tmp;
+        self.update_vars();
     }
 
     /// Simplifies the expression in-place for multiple variables and returns the expression.
@@ -251,6 +251,13 @@ impl Xprs<'_> {
         self.simplify_for_multiple_in_place(vars);
         self
     }
+
+    /// Recomputes the set of variables, a simplification might have
+    /// removed more variables than the ones it was given.
+    fn update_vars(&mut self) {
+        self.vars.clear();
+        self.root.find_variables(&mut self.vars);
+    }
 }
 
 /// An internal struct used for evaluating expressions.
-- 
2.43.0


From cc35a96dfde3411e10b304be7a3d1fb17d154e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 10/13] fix: functions can be called without arguments

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1648389..2d16d90 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -248,8 +248,6 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             Identifier::Constant(val) => Element::Number(val),
             Identifier::Variable(var) => Element::Variable(var),
             Identifier::Function(func) if self.consume_if_eq(b'(') => {
-                // for now the minimum number of arguments is 1
-                // self.parse_arguments() will fail if no argument is found
                 let args = self.parse_arguments()?;
                 self.assert_eq_consume(b')')?;
                 if let Some(nb_args) = func.nb_args {
@@ -321,6 +319,11 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     fn parse_arguments(&mut self) -> Result<Vec<Element<'input>>, ParseError> {
         let mut args = Vec::new();
 
+        // no arguments
+        if self.next_trim() == Some(&b')') {
+            return Ok(args);
+        }
+
         loop {
             let arg = self.argument()?;
             args.push(arg);
-- 
2.43.0


From 1c67a15e34c89c1112ede3a39c3b28a784bb53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 11/13] fix: displayed factorials and negative bases can be
 parsed again

---
 src/element/binop.rs | 20 +++++++++++++++++++-
 src/element/mod.rs   | 20 ++++++++++++++++++++
 src/element/unop.rs  | 14 +++++++++++++-
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/element/binop.rs b/src/element/binop.rs
index 16eda9a..42c3f47 100644
--- a/src/element/binop.rs
+++ b/src/element/binop.rs
@@ -32,7 +32,25 @@ impl<'a> BinOp<'a> {
 
 impl fmt::Display for BinOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
+        match self.op {
+            Operator::Power => {
+                write!(
+                    fmt,
+                    "({} {} {})",
+                    self.lhs.as_base(),
+                    self.op,
+                    self.rhs
+                )
+            },
+            Operator::Plus
+            | Operator::Minus
+            | Operator::Times
+            | Operator::Divide
+            | Operator::Modulo
+            | Operator::Factorial => {
+                write!(fmt, "({} {} {})", self.lhs, self.op, self.rhs)
+            },
+        }
     }
 }
 
diff --git a/src/element/mod.rs b/src/element/mod.rs
index 5ac64c3..3bca2a9 100644
--- a/src/element/mod.rs
+++ b/src/element/mod.rs
@@ -44,6 +44,21 @@ impl fmt::Display for Element<'_> {
     }
 }
 
+/// Wrapper to display an [`Element`] as the operand of an operator that binds
+/// tighter than the unary minus: negative numbers need parentheses there.
+pub(crate) struct Base<'el, 'a>(&'el Element<'a>);
+
+impl fmt::Display for Base<'_, '_> {
+    fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
+        match *self.0 {
+            Element::Number(num) if num.is_sign_negative() => {
+                write!(fmt, "({num})")
+            },
+            ref element => write!(fmt, "{element}"),
+        }
+    }
+}
+
 impl<T> From<T> for Element<'_>
 where
     T: Into<f64>,
@@ -72,6 +87,11 @@ impl<'a> From<FunctionCall<'a>> for Element<'a> {
 }
 
 impl<'a> Element<'a> {
+    /// Displays the element as the base of a power or of a factorial.
+    pub(crate) const fn as_base(&self) -> Base<'_, 'a> {
+        Base(self)
+    }
+
     /// Finds variables in the element and adds them to the provided set.
     pub(crate) fn find_variables(&self, vars: &mut HashSet<&'a str>) {
         match *self {
diff --git a/src/element/unop.rs b/src/element/unop.rs
index b2c7565..ad7c2fc 100644
--- a/src/element/unop.rs
+++ b/src/element/unop.rs
@@ -29,6 +29,18 @@ impl<'a> UnOp<'a> {
 
 impl fmt::Display for UnOp<'_> {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "({}{})", self.op, self.operand)
+        match self.op {
+            Operator::Factorial => {
+                write!(fmt, "({}{})", self.operand.as_base(), self.op)
+            },
+            Operator::Plus
+            | Operator::Minus
+            | Operator::Times
+            | Operator::Divide
+            | Operator::Power
+            | Operator::Modulo => {
+                write!(fmt, "({}{})", self.op, self.operand)
+            },
+        }
     }
 }
-- 
2.43.0


From ee6030a846a6c2f44b4956c24a994f90ee5ce98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 12/13] fix: a second `!` is never applied to an already parsed
 signed operand

---
 src/parser.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2d16d90..1d89730 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -167,12 +167,6 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
     ) -> Result<Element<'input>, ParseError> {
         let mut el = self.atom()?;
 
-        // Right-associative unary operators
-        if self.consume_if_eq(b'!') {
-            self.after_number = false;
-            el = UnOp::new_element(Operator::Factorial, el);
-        }
-
         // BinOp with higher precedence
         while let Some((op, op_precedence)) =
             self.get_operator_infos(precedence)
@@ -194,7 +188,7 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
         let Some(&next) = self.next_trim() else {
             yeet!(ParseError::new_unexpected_end_of_expression(self));
         };
-        let atom = match next {
+        let mut atom = match next {
             /* Number */
             b'0'..=b'9' | b'.' => self.parse_number()?,
             /* Identifier */
@@ -209,7 +203,8 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
                     _ => unreachable!(),
                 };
                 let operand = self.element(precedence::UNOP_PRECEDENCE)?;
-                UnOp::new_element(operator, operand)
+                // the operand already had its chance to get a factorial
+                return Ok(UnOp::new_element(operator, operand));
             },
             /* Parenthesis */
             b'(' => {
@@ -226,6 +221,12 @@ impl<'input, 'ctx> ParserImpl<'input, 'ctx> {
             },
         };
 
+        // Right-associative unary operators
+        if self.consume_if_eq(b'!') {
+            self.after_number = false;
+            atom = UnOp::new_element(Operator::Factorial, atom);
+        }
+
         Ok(atom)
     }
 
-- 
2.43.0


From 415e7ce517dd0fb25f1d6d88e440f0097f05f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 13/13] fix: report undeclared variables deterministically

With several undeclared variables, the one named in the error was the
first in hash order, which differs from one parse to the next. Name the
first in alphabetical order, and list the expected ones sorted.
---
 src/parser.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1d89730..4944d04 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -90,14 +90,16 @@ impl<'ctx> Parser<'ctx> {
 
         // Check if no unknown variable was found
         if let Some(expected) = self.ctx.get_expected_vars() {
-            if let Some(unknown_var) = xprs.vars.difference(expected).next() {
+            if let Some(unknown_var) = xprs.vars.difference(expected).min() {
+                let mut available_vars = expected
+                    .iter()
+                    .map(|&str| str.to_owned())
+                    .collect::<Vec<_>>();
+                available_vars.sort_unstable();
                 yeet!(ParseError::new_variable_not_declared(
                     input,
                     unknown_var,
-                    expected
-                        .iter()
-                        .map(|&str| str.to_owned())
-                        .collect::<Vec<_>>()
+                    available_vars
                 ))
             }
         }
-- 
2.43.0

