From aa211d8e249a2b09f50916f933f38ef9ffc85853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:04 +0000
Subject: [PATCH 01/55] fix: every string of a list of flags may hold several
 space-separated flags

---
 src/runtime/actions/action_flags.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/runtime/actions/action_flags.rs b/src/runtime/actions/action_flags.rs
index a1290f5..79e504a 100644
--- a/src/runtime/actions/action_flags.rs
+++ b/src/runtime/actions/action_flags.rs
@@ -92,17 +92,11 @@ impl Context<'_> {
         strings: &[Value],
         mut cb: impl FnMut(&str) -> bool,
     ) -> bool {
-        for (pos, string) in strings.iter().enumerate() {
-            let flag_ = self.eval_value(string);
-            let flag = flag_.to_string();
-            if !flag.is_empty() {
-                if pos == 0 && strings.len() == 1 {
-                    for flag in flag.split_ascii_whitespace() {
-                        if !flag.is_empty() && cb(flag) {
-                            return true;
-                        }
-                    }
-                } else if cb(flag.trim()) {
+        for string in strings {
+            let flags_ = self.eval_value(string);
+            let flags = flags_.to_string();
+            for flag in flags.split_ascii_whitespace() {
+                if cb(flag) {
                     return true;
                 }
             }
-- 
2.43.0


From 64b4604261534eec52527b30404c7d902584f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:51 +0000
Subject: [PATCH 02/55] fix: elsif and else are rejected as first command of an
 elsif or else block

---
 src/compiler/grammar/instruction.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 0baff56..2337630 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -633,6 +633,7 @@ impl Compiler {
                             state.block.last_block_start = state.instructions.len() - 1;
                             state.block_stack.push(state.block);
                             state.block = new_block;
+                            state.last_block_type = Word::Not;
                         } else {
                             return Err(CompileError {
                                 line_num: state.block.line_num,
-- 
2.43.0


From 97104d8e8dfbff9c80188ca858a1737e3fd7e868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 03/55] fix: continue works inside directly nested while loops
 and leaves foreverypart loops properly

---
 src/compiler/grammar/instruction.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 2337630..4ca7fec 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -582,22 +582,32 @@ impl Compiler {
                                 token_info.line_num,
                                 token_info.line_pos,
                             )?;
-                            let mut found_while = 0;
+                            let mut found_while = false;
+                            let mut loop_start = None;
+                            let mut num_pops = 0;
                             for block in [&state.block]
                                 .into_iter()
                                 .chain(state.block_stack.iter().rev())
                             {
-                                if let Word::While = &block.btype {
-                                    found_while += 1;
-                                } else if found_while == 1 {
-                                    state
-                                        .instructions
-                                        .push(Instruction::Jmp(block.last_block_start));
-                                    found_while += 1;
+                                if found_while {
+                                    // The parent block knows where the loop starts
+                                    loop_start = Some(block.last_block_start);
                                     break;
                                 }
+                                match &block.btype {
+                                    Word::While => found_while = true,
+                                    Word::ForEveryPart => num_pops += 1,
+                                    _ => (),
+                                }
                             }
-                            if found_while != 2 {
+                            if let Some(loop_start) = loop_start {
+                                if num_pops > 0 {
+                                    state
+                                        .instructions
+                                        .push(Instruction::ForEveryPartPop(num_pops));
+                                }
+                                state.instructions.push(Instruction::Jmp(loop_start));
+                            } else {
                                 return Err(token_info.custom(ErrorType::ContinueOutsideLoop));
                             }
                         }
-- 
2.43.0


From fa396c12b4759a955cb7fbcfe3266e6f08717b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:08 +0000
Subject: [PATCH 04/55] fix: unary minus of the smallest integer saturates like
 the other operators instead of overflowing

---
 src/runtime/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index 017e196..c2dbfe2 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -225,7 +225,7 @@ impl Variable {
 
     pub fn op_minus(self) -> Variable {
         match self {
-            Variable::Integer(n) => Variable::Integer(-n),
+            Variable::Integer(n) => Variable::Integer(n.saturating_neg()),
             Variable::Float(n) => Variable::Float(-n),
             _ => self.parse_number().op_minus(),
         }
-- 
2.43.0


From 517e684d9fc62d33213b9a234d3806063eec9673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 05/55] fix: escape sequences in expression strings drop their
 backslash, and an escaped backslash does not escape what follows

---
 src/compiler/grammar/expr/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 9e8310a..3a14c41 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -185,7 +185,9 @@ where
 
                             for (_, &ch) in self.iter.by_ref() {
                                 if last_ch != b'\\' {
-                                    if ch != stop_ch {
+                                    if ch == b'\\' {
+                                        // Escape character, the next one is taken literally
+                                    } else if ch != stop_ch {
                                         buf.push(ch);
                                     } else {
                                         found_end = true;
@@ -206,6 +208,8 @@ where
                                             buf.push(ch);
                                         }
                                     }
+                                    last_ch = 0;
+                                    continue;
                                 }
 
                                 last_ch = ch;
-- 
2.43.0


From 6fc373ce0ee0b66a215b7f6fd169c9c7d808410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 06/55] fix: a single = in an expression no longer swallows the
 character after it

---
 src/compiler/grammar/expr/tokenizer.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 3a14c41..b8c5676 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -147,10 +147,19 @@ where
                                 Token::BinaryOperator(BinaryOperator::Subtract)
                             }
                         }
-                        b'=' => match self.iter.next() {
-                            Some((_, b'=')) => Token::BinaryOperator(BinaryOperator::Eq),
-                            Some((_, b'>')) => Token::BinaryOperator(BinaryOperator::Ge),
-                            Some((_, b'<')) => Token::BinaryOperator(BinaryOperator::Le),
+                        b'=' => match self.iter.peek() {
+                            Some((_, b'=')) => {
+                                self.iter.next();
+                                Token::BinaryOperator(BinaryOperator::Eq)
+                            }
+                            Some((_, b'>')) => {
+                                self.iter.next();
+                                Token::BinaryOperator(BinaryOperator::Ge)
+                            }
+                            Some((_, b'<')) => {
+                                self.iter.next();
+                                Token::BinaryOperator(BinaryOperator::Le)
+                            }
                             _ => Token::BinaryOperator(BinaryOperator::Eq),
                         },
                         b'>' => match self.iter.peek() {
-- 
2.43.0


From 15a1c92196678be0dac7f748cb0afcc7056631f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:37 +0000
Subject: [PATCH 07/55] fix: a minus sign after [ or after another unary
 operator is a unary minus

---
 src/compiler/grammar/expr/tokenizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index b8c5676..237849f 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -239,7 +239,11 @@ where
                     };
                     self.is_start = matches!(
                         token,
-                        Token::OpenParen | Token::Comma | Token::BinaryOperator(_)
+                        Token::OpenParen
+                            | Token::OpenBracket
+                            | Token::Comma
+                            | Token::BinaryOperator(_)
+                            | Token::UnaryOperator(_)
                     );
 
                     return if prev_token.is_some() {
-- 
2.43.0


From 892885afa75b3788d42f746d2d45ee6b31fcd403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 08/55] fix: && and || yield 0 or 1 also when the right operand
 is not evaluated

---
 src/runtime/expression.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/expression.rs b/src/runtime/expression.rs
index c2dbfe2..8b342de 100644
--- a/src/runtime/expression.rs
+++ b/src/runtime/expression.rs
@@ -75,6 +75,10 @@ impl Context<'_> {
                 }
                 Expression::JmpIf { val, pos } => {
                     if self.expr_stack.last().is_some_and(|v| v.to_bool()) == *val {
+                        // The skipped operator yields a boolean, as when it is evaluated
+                        if let Some(left) = self.expr_stack.last_mut() {
+                            *left = Variable::Integer(i64::from(*val));
+                        }
                         self.expr_pos += *pos as usize;
                         for _ in 0..*pos {
                             exprs.next();
-- 
2.43.0


From 5633af43571c757b2b7487f054133fff476af6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:38 +0000
Subject: [PATCH 09/55] fix: array constructors accept items that start with a
 parenthesis or a unary operator

---
 src/compiler/grammar/expr/parser.rs | 33 +++++++++++++++++------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/compiler/grammar/expr/parser.rs b/src/compiler/grammar/expr/parser.rs
index 7557c56..5780d96 100644
--- a/src/compiler/grammar/expr/parser.rs
+++ b/src/compiler/grammar/expr/parser.rs
@@ -35,9 +35,11 @@ where
 
     pub fn parse(mut self) -> Result<Self, String> {
         let mut last_is_var_or_fnc = false;
+        let mut last_is_open_bracket = false;
 
         while let Some(token) = self.tokenizer.next()? {
             let mut is_var_or_fnc = false;
+            let is_open_bracket = matches!(token, Token::OpenBracket);
             match token {
                 Token::Variable(v) => {
                     self.inc_arg_count();
@@ -82,7 +84,13 @@ where
                         self.operator_stack.last()
                     {
                         let got_args = self.arg_count.pop().unwrap();
-                        if got_args != *num_args as i32 {
+                        let num_args = if *id == ID_ARRAY_BUILD && !last_is_open_bracket {
+                            // The items are counted at the commas between them
+                            *num_args + 1
+                        } else {
+                            *num_args
+                        };
+                        if got_args != num_args as i32 {
                             return Err(if *id != u32::MAX {
                                 format!(
                                     "Expression function {:?} expected {} arguments, got {}",
@@ -95,11 +103,8 @@ where
 
                         let expr = match *id {
                             ID_ARRAY_ACCESS => Expression::ArrayAccess,
-                            ID_ARRAY_BUILD => Expression::ArrayBuild(*num_args),
-                            id => Expression::Function {
-                                id,
-                                num_args: *num_args,
-                            },
+                            ID_ARRAY_BUILD => Expression::ArrayBuild(num_args),
+                            id => Expression::Function { id, num_args },
                         };
 
                         self.operator_stack.pop();
@@ -191,9 +196,18 @@ where
                             _ => break,
                         }
                     }
+
+                    if let [.., (Token::Function { id, num_args, .. }, _), (Token::OpenBracket, _)] =
+                        self.operator_stack.as_mut_slice()
+                    {
+                        if *id == ID_ARRAY_BUILD {
+                            *num_args += 1;
+                        }
+                    }
                 }
             }
             last_is_var_or_fnc = is_var_or_fnc;
+            last_is_open_bracket = is_open_bracket;
         }
 
         while let Some((token, jmp_pos)) = self.operator_stack.pop() {
@@ -213,13 +227,6 @@ where
     fn inc_arg_count(&mut self) {
         if let Some(x) = self.arg_count.last_mut() {
             *x = x.saturating_add(1);
-            let op_pos = self.operator_stack.len().saturating_sub(2);
-            match self.operator_stack.get_mut(op_pos) {
-                Some((Token::Function { num_args, id, .. }, _)) if *id == ID_ARRAY_BUILD => {
-                    *num_args += 1;
-                }
-                _ => {}
-            }
         }
     }
 
-- 
2.43.0


From a77748680a9680a3fba4e85e812a6fa2283eaf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 10/55] fix: a declared global variable is read under the same
 name whatever the case it is written in

---
 src/compiler/lexer/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index d72e373..303c650 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -279,7 +279,7 @@ impl CompilerState<'_> {
     ) -> Result<Option<VariableType>, ErrorType> {
         if !maybe_namespace {
             if self.is_var_global(var_name) {
-                Ok(Some(VariableType::Global(var_name.to_string())))
+                Ok(Some(VariableType::Global(var_name.to_lowercase())))
             } else if let Some(var_id) = self.get_local_var(var_name) {
                 Ok(Some(VariableType::Local(var_id)))
             } else {
@@ -328,7 +328,7 @@ impl CompilerState<'_> {
                 },
                 None => {
                     if self.is_var_global(var_name) {
-                        VariableType::Global(var_name.to_string())
+                        VariableType::Global(var_name.to_lowercase())
                     } else if let Some(var_id) = self.get_local_var(var_name) {
                         VariableType::Local(var_id)
                     } else {
-- 
2.43.0


From 25d784e403a559556a966e37a505256fbae3e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 11/55] fix: :local variables keep their value inside set
 :replace and body :content arguments

---
 src/compiler/grammar/instruction.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 4ca7fec..2a5990a 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -27,14 +27,14 @@ use super::{
         action_notify::Notify,
         action_redirect::Redirect,
         action_reject::Reject,
-        action_set::{Let, Set},
+        action_set::{Let, Modifier, Set},
         action_vacation::Vacation,
     },
     expr::Expression,
     Capability, Clear, Invalid, While,
 };
 
-use super::tests::test_ihave::Error;
+use super::tests::{test_body::BodyTransform, test_ihave::Error};
 
 #[derive(Debug, Clone, Eq, PartialEq)]
 #[cfg_attr(
@@ -1014,6 +1014,12 @@ impl CompilerState<'_> {
                     v.value_patterns.map_local_vars(last_id);
                 }
                 Instruction::Set(v) => {
+                    for modifier in &mut v.modifiers {
+                        if let Modifier::Replace { find, replace } = modifier {
+                            find.map_local_vars(last_id);
+                            replace.map_local_vars(last_id);
+                        }
+                    }
                     v.name.map_local_vars(last_id);
                     v.value.map_local_vars(last_id);
                 }
@@ -1083,6 +1089,9 @@ impl MapLocalVars for Test {
                 v.mime_opts.map_local_vars(last_id);
             }
             Test::Body(v) => {
+                if let BodyTransform::Content(content) = &mut v.body_transform {
+                    content.map_local_vars(last_id);
+                }
                 v.key_list.map_local_vars(last_id);
             }
             Test::Convert(v) => {
-- 
2.43.0


From 897ba13c16eb44de459f88aa0b62d29ccb7cff04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 12/55] fix: the foreverypart label check includes the
 innermost enclosing block

---
 src/compiler/grammar/instruction.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 2a5990a..7b790ba 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -248,7 +248,9 @@ impl Compiler {
                             {
                                 let tag = state.tokens.next().unwrap().unwrap();
                                 let label = state.tokens.expect_static_string()?;
-                                for block in &state.block_stack {
+                                for block in
+                                    [&state.block].into_iter().chain(state.block_stack.iter())
+                                {
                                     if block.label.as_ref().is_some_and(|n| n.eq(&label)) {
                                         return Err(
                                             tag.custom(ErrorType::LabelAlreadyDefined(label))
-- 
2.43.0


From 172a57d5cf3935d26b7902f1307ae9ec8dc8ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 13/55] fix: scripts with too many local variables are rejected
 at compile time instead of being skipped at run time

---
 src/compiler/grammar/actions/action_set.rs | 18 +++++++++++++-----
 src/compiler/mod.rs                        |  2 ++
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index c6d1f30..60e74dd 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -13,7 +13,7 @@ use crate::{
         lexer::{tokenizer::TokenInfo, word::Word, Token},
         CompileError, ErrorType, Value, VariableType,
     },
-    Envelope,
+    Envelope, MAX_LOCAL_VARIABLES,
 };
 
 #[derive(Debug, Clone, PartialEq, Eq)]
@@ -181,11 +181,19 @@ impl CompilerState<'_> {
                 _ => Err(ErrorType::InvalidNamespace(namespace.to_string())),
             }
         } else {
-            Ok(if !self.is_var_global(&name) {
-                VariableType::Local(self.register_local_var(name, register_as_local))
+            if self.is_var_global(&name) {
+                return Ok(VariableType::Global(name));
+            }
+            let var_id = self.register_local_var(name, register_as_local);
+            let max_vars = std::cmp::min(
+                self.compiler.max_local_variables,
+                MAX_LOCAL_VARIABLES as usize,
+            );
+            if std::cmp::max(self.vars_num, self.vars_num_max) + self.vars_local <= max_vars {
+                Ok(VariableType::Local(var_id))
             } else {
-                VariableType::Global(name)
-            })
+                Err(ErrorType::TooManyLocalVariables)
+            }
         }
     }
 }
diff --git a/src/compiler/mod.rs b/src/compiler/mod.rs
index e62705f..67890d3 100644
--- a/src/compiler/mod.rs
+++ b/src/compiler/mod.rs
@@ -58,6 +58,7 @@ pub enum ErrorType {
     TooManyNestedTests,
     TooManyNestedForEveryParts,
     TooManyIncludes,
+    TooManyLocalVariables,
     LabelAlreadyDefined(String),
     LabelUndefined(String),
     BreakOutsideLoop,
@@ -547,6 +548,7 @@ impl Display for CompileError {
                 write!(f, "Too many nested foreverypart blocks")
             }
             ErrorType::TooManyIncludes => write!(f, "Too many includes"),
+            ErrorType::TooManyLocalVariables => write!(f, "Too many local variables"),
             ErrorType::LabelAlreadyDefined(value) => write!(f, "Label {value:?} already defined"),
             ErrorType::LabelUndefined(value) => write!(f, "Label {value:?} does not exist"),
             ErrorType::BreakOutsideLoop => write!(f, "Break used outside of foreverypart loop"),
-- 
2.43.0


From b0ceeb8b395df5b428cc75d75d8a080bdcbee92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:25 +0000
Subject: [PATCH 14/55] fix: the configured maximum number of match variables
 is enforced

---
 src/compiler/lexer/string.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 303c650..3211b53 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -257,7 +257,12 @@ impl CompilerState<'_> {
         let num = var_name
             .parse()
             .map_err(|_| ErrorType::InvalidNumber(var_name.to_string()))?;
-        if num < MAX_MATCH_VARIABLES as usize {
+        if num
+            < std::cmp::min(
+                self.compiler.max_match_variables,
+                MAX_MATCH_VARIABLES as usize,
+            )
+        {
             if self.register_match_var(num) {
                 let total_vars = num + 1;
                 if total_vars > self.vars_match_max {
-- 
2.43.0


From 14889542ae2e37b242013c3ec5d9b214e0524478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:12 +0000
Subject: [PATCH 15/55] fix: match variables can be used inside the arguments
 of a match test and after an inner one that failed

---
 src/compiler/grammar/instruction.rs | 102 ++++++++++++++++------------
 1 file changed, 57 insertions(+), 45 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 7b790ba..8740e1e 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -900,57 +900,69 @@ impl CompilerState<'_> {
     }
 
     pub(crate) fn register_match_var(&mut self, num: usize) -> bool {
-        let mut block = &mut self.block;
+        debug_assert!(num < 63);
+        let mut found = false;
+        let mut is_inner = true;
 
-        if block.match_test_pos.is_empty() {
-            for block_ in self.block_stack.iter_mut().rev() {
-                if !block_.match_test_pos.is_empty() {
-                    block = block_;
-                    break;
-                }
-            }
-        }
-
-        if !block.match_test_pos.is_empty() {
-            debug_assert!(num < 63);
+        // The value may come from any match test of this block or of an enclosing one
+        for block in std::iter::once(&mut self.block).chain(self.block_stack.iter_mut().rev()) {
+            let mut guard_matched = false;
 
             for pos in &block.match_test_pos {
-                if let Some(Instruction::Test(test)) = self.instructions.get_mut(*pos) {
-                    let match_type = match test {
-                        Test::Address(t) => &mut t.match_type,
-                        Test::Body(t) => &mut t.match_type,
-                        Test::Date(t) => &mut t.match_type,
-                        Test::CurrentDate(t) => &mut t.match_type,
-                        Test::Envelope(t) => &mut t.match_type,
-                        Test::HasFlag(t) => &mut t.match_type,
-                        Test::Header(t) => &mut t.match_type,
-                        Test::Metadata(t) => &mut t.match_type,
-                        Test::NotifyMethodCapability(t) => &mut t.match_type,
-                        Test::SpamTest(t) => &mut t.match_type,
-                        Test::String(t) | Test::Environment(t) => &mut t.match_type,
-                        Test::VirusTest(t) => &mut t.match_type,
-                        _ => {
-                            debug_assert!(false, "This should not have happened: {test:?}");
-                            return false;
-                        }
-                    };
-                    if let MatchType::Matches(positions) | MatchType::Regex(positions) = match_type
-                    {
-                        *positions |= 1 << num;
-                        block.match_test_vars = *positions;
-                    } else {
-                        debug_assert!(false, "This should not have happened");
-                        return false;
-                    }
-                } else {
-                    debug_assert!(false, "This should not have happened");
-                    return false;
+                // The test being parsed is not part of the instructions yet
+                let (match_type, is_not) = match self.instructions.get_mut(*pos) {
+                    Some(Instruction::Test(test)) => match test {
+                        Test::Address(t) => (&mut t.match_type, t.is_not),
+                        Test::Body(t) => (&mut t.match_type, t.is_not),
+                        Test::Date(t) => (&mut t.match_type, t.is_not),
+                        Test::CurrentDate(t) => (&mut t.match_type, t.is_not),
+                        Test::Envelope(t) => (&mut t.match_type, t.is_not),
+                        Test::HasFlag(t) => (&mut t.match_type, t.is_not),
+                        Test::Header(t) => (&mut t.match_type, t.is_not),
+                        Test::Metadata(t) => (&mut t.match_type, t.is_not),
+                        Test::NotifyMethodCapability(t) => (&mut t.match_type, t.is_not),
+                        Test::SpamTest(t) => (&mut t.match_type, t.is_not),
+                        Test::String(t) | Test::Environment(t) => (&mut t.match_type, t.is_not),
+                        Test::VirusTest(t) => (&mut t.match_type, t.is_not),
+                        _ => continue,
+                    },
+                    _ => continue,
+                };
+
+                if let MatchType::Matches(positions) | MatchType::Regex(positions) = match_type {
+                    *positions |= 1 << num;
+                    block.match_test_vars = *positions;
+                    found = true;
+                    guard_matched = !is_inner && !is_not && *pos + 1 == block.last_block_start;
                 }
             }
-            true
-        } else {
-            false
+
+            // No need to look further if entering the inner block required a match
+            if guard_matched
+                && matches!(
+                    self.instructions.get(block.last_block_start),
+                    Some(Instruction::Jz(_))
+                )
+                && !self.instructions[..block.last_block_start]
+                    .iter()
+                    .rev()
+                    .take_while(|i| {
+                        matches!(
+                            i,
+                            Instruction::Test(_)
+                                | Instruction::Eval(_)
+                                | Instruction::Jz(_)
+                                | Instruction::Jnz(_)
+                        )
+                    })
+                    .any(|i| matches!(i, Instruction::Jnz(to) if *to == block.last_block_start))
+            {
+                break;
+            }
+            is_inner = false;
         }
+
+        found
     }
 
     pub(crate) fn block_end(&mut self) {
-- 
2.43.0


From d93cce32f1c17db99d87c14860d12c3a10174950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:28 +0000
Subject: [PATCH 16/55] fix: local variables in the :replace modifier of
 extracttext refer to the right slot

---
 src/compiler/grammar/instruction.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 8740e1e..45ff007 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -1012,6 +1012,12 @@ impl CompilerState<'_> {
                     v.value.map_local_vars(last_id);
                 }
                 Instruction::ExtractText(v) => {
+                    for modifier in &mut v.modifiers {
+                        if let Modifier::Replace { find, replace } = modifier {
+                            find.map_local_vars(last_id);
+                            replace.map_local_vars(last_id);
+                        }
+                    }
                     v.name.map_local_vars(last_id);
                 }
                 Instruction::Convert(v) => {
-- 
2.43.0


From 8280994990c504034da60899586bf06859ac7bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:24 +0000
Subject: [PATCH 17/55] fix: an escaped backslash in a quoted string does not
 escape the character after it

---
 src/compiler/lexer/tokenizer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 5c8e591..4a3ee9f 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -460,6 +460,7 @@ impl Iterator for Tokenizer<'_> {
                     b'\\' => {
                         if last_ch == b'\\' {
                             self.push_byte(ch);
+                            self.last_ch = 0;
                         }
                     }
                     b'0'..=b'9' => {
-- 
2.43.0


From 1d83585c3e99403f3bb876d7a9d6d3752fbc0206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:31 +0000
Subject: [PATCH 18/55] fix: the error for an unknown command gives its own
 line and column

---
 src/compiler/grammar/instruction.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index 45ff007..ca482f3 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -625,8 +625,8 @@ impl Compiler {
                                 continue;
                             } else {
                                 return Err(CompileError {
-                                    line_num: state.block.line_num,
-                                    line_pos: state.block.line_pos,
+                                    line_num: token_info.line_num,
+                                    line_pos: token_info.line_pos,
                                     error_type: ErrorType::UnexpectedToken {
                                         expected: "command".into(),
                                         found: instruction.to_string(),
@@ -803,8 +803,8 @@ impl Compiler {
                         }));
                     } else {
                         return Err(CompileError {
-                            line_num: state.block.line_num,
-                            line_pos: state.block.line_pos,
+                            line_num: token_info.line_num,
+                            line_pos: token_info.line_pos,
                             error_type: ErrorType::UnexpectedToken {
                                 expected: "command".into(),
                                 found: instruction,
-- 
2.43.0


From 9a47c8d74bb1eaabbb4037ee9dc7324692fad4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:49 +0000
Subject: [PATCH 19/55] fix: messages sent by a mailto notification count
 towards the maximum number of outgoing messages

---
 src/runtime/actions/action_notify.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 88d5909..713e992 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -237,6 +237,7 @@ impl Notify {
                     by_time: ByTime::None,
                     message_id: ctx.last_message_id,
                 });
+                ctx.num_out_messages += 1;
             }
         }
 
-- 
2.43.0


From e7075cc6d37b6a94f785b7026cd750636ea3d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:46 +0000
Subject: [PATCH 20/55] fix: replace keeps part numbers consistent when it
 removes the parts below the replaced one

---
 src/runtime/actions/action_mime.rs | 50 ++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 4732512..9e1f917 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -4,8 +4,6 @@
  * SPDX-License-Identifier: AGPL-3.0-only OR LicenseRef-SEL
  */
 
-use std::cmp::Reverse;
-
 use mail_parser::{
     decoders::html::html_to_text, Encoding, HeaderName, Message, MessagePart, PartType,
 };
@@ -27,10 +25,8 @@ impl Replace {
     pub(crate) fn exec(&self, ctx: &mut Context) {
         // Delete children parts
         let mut part_ids = ctx.find_nested_parts_ids(false);
-        part_ids.sort_unstable_by_key(|a| Reverse(*a));
-        for part_id in part_ids {
-            ctx.message.parts.remove(part_id as usize);
-        }
+        part_ids.sort_unstable();
+        ctx.remove_parts(&part_ids);
         ctx.has_changes = true;
 
         // Update part
@@ -380,6 +376,48 @@ enum StackItem<'x> {
 }
 
 impl Context<'_> {
+    // Removes the given parts (in ascending order) from the message and renumbers
+    // every reference to the remaining ones.
+    fn remove_parts(&mut self, part_ids: &[u32]) {
+        if part_ids.is_empty() {
+            return;
+        }
+
+        for part_id in part_ids.iter().rev() {
+            self.message.parts.remove(*part_id as usize);
+        }
+
+        let renumber = |part_id: u32| match part_ids.binary_search(&part_id) {
+            Ok(_) => None,
+            Err(num_removed) => Some(part_id - num_removed as u32),
+        };
+        let renumber_all = |ids: &mut Vec<u32>| {
+            *ids = ids.drain(..).filter_map(renumber).collect();
+        };
+
+        for part in &mut self.message.parts {
+            if let PartType::Multipart(subparts) = &mut part.body {
+                renumber_all(subparts);
+            }
+        }
+        renumber_all(&mut self.message.html_body);
+        renumber_all(&mut self.message.text_body);
+        renumber_all(&mut self.message.attachments);
+
+        self.part = renumber(self.part).unwrap_or_default();
+        self.part_iter = std::mem::take(&mut self.part_iter)
+            .filter_map(renumber)
+            .collect::<Vec<_>>()
+            .into_iter();
+        for (prev_part, prev_part_iter) in &mut self.part_iter_stack {
+            *prev_part = renumber(*prev_part).unwrap_or_default();
+            *prev_part_iter = std::mem::take(prev_part_iter)
+                .filter_map(renumber)
+                .collect::<Vec<_>>()
+                .into_iter();
+        }
+    }
+
     pub(crate) fn build_message_id(&mut self) -> Option<Event> {
         if self.has_changes {
             self.last_message_id += 1;
-- 
2.43.0


From 0879d66df24c866ed48a8fa8f226c322f785e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:53 +0000
Subject: [PATCH 21/55] fix: the message size does not underflow when a part
 whose headers were deleted is replaced or converted

---
 src/runtime/actions/action_convert.rs    |  7 ++++---
 src/runtime/actions/action_editheader.rs |  2 +-
 src/runtime/actions/action_mime.rs       | 11 +++++------
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index ff62b97..b3ab202 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -81,12 +81,13 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             }];
-            ctx.message_size = ctx.message_size + ct.len() + new_body.len() + 16
-                - (if part.offset_body != 0 {
+            ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
+                if part.offset_body != 0 {
                     (part.offset_end - part.offset_header) as usize
                 } else {
                     part.body.len()
-                });
+                },
+            );
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
diff --git a/src/runtime/actions/action_editheader.rs b/src/runtime/actions/action_editheader.rs
index 8f14dbe..98fdd97 100644
--- a/src/runtime/actions/action_editheader.rs
+++ b/src/runtime/actions/action_editheader.rs
@@ -132,7 +132,7 @@ impl DeleteHeader {
             }
         }
 
-        ctx.message_size -= deleted_bytes;
+        ctx.message_size = ctx.message_size.saturating_sub(deleted_bytes);
     }
 }
 
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 9e1f917..f1d8e3b 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -35,12 +35,11 @@ impl Replace {
 
         let part = &mut ctx.message.parts[ctx.part as usize];
 
-        ctx.message_size = ctx.message_size + body_len
-            - (if part.offset_body != 0 {
-                (part.offset_end - part.offset_header) as usize
-            } else {
-                part.body.len()
-            });
+        ctx.message_size = (ctx.message_size + body_len).saturating_sub(if part.offset_body != 0 {
+            (part.offset_end - part.offset_header) as usize
+        } else {
+            part.body.len()
+        });
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
             Encoding::QuotedPrintable
-- 
2.43.0


From 6a3882ac6a452e9f6c080a347cf5bbdda8ee0837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:01 +0000
Subject: [PATCH 22/55] fix: enclose inside a foreverypart loop ends the loops
 over the parts of the enclosed message

---
 src/runtime/actions/action_mime.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index f1d8e3b..d0a5e2c 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -182,6 +182,10 @@ impl Enclose {
 
         ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
         ctx.part = 0;
+        ctx.part_iter = Vec::new().into_iter();
+        for prev_part in &mut ctx.part_iter_stack {
+            *prev_part = (0, Vec::new().into_iter());
+        }
         ctx.has_changes = true;
         ctx.message = Message {
             html_body: Vec::with_capacity(0),
-- 
2.43.0


From 6f986211dff6129ccd34781229d35f570151387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:29 +0000
Subject: [PATCH 23/55] fix: the implicit keep refers to the edited message
 also when an action before it already stored that version

---
 src/runtime/context.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 76cf232..1c358a8 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -409,7 +409,7 @@ impl<'x> Context<'x> {
         match self.final_event.take() {
             Some(Event::Keep {
                 mut flags,
-                message_id,
+                mut message_id,
             }) => {
                 let create_event = if self.has_changes {
                     self.build_message_id()
@@ -417,6 +417,11 @@ impl<'x> Context<'x> {
                     None
                 };
 
+                // Keep without flags is the same as the implicit keep
+                if flags.is_empty() {
+                    message_id = self.main_message_id;
+                }
+
                 let global_flags = self.get_global_flags();
                 if flags.is_empty() && !global_flags.is_empty() {
                     flags = global_flags;
@@ -445,9 +450,13 @@ impl<'x> Context<'x> {
         if let Some(event) = self.final_event.take() {
             self.queued_events = if let Event::Keep {
                 mut flags,
-                message_id,
+                mut message_id,
             } = event
             {
+                // Keep without flags is the same as the implicit keep
+                if flags.is_empty() {
+                    message_id = self.main_message_id;
+                }
                 let global_flags = self.get_global_flags();
                 if flags.is_empty() && !global_flags.is_empty() {
                     flags = global_flags;
-- 
2.43.0


From 31ed318f17099cff4d2d8c357c5863b5ebf8b4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:46 +0000
Subject: [PATCH 24/55] fix: header fields set by replace, enclose and convert
 are found by later tests and edits

---
 src/runtime/actions/action_convert.rs |  2 +-
 src/runtime/actions/action_mime.rs    | 35 +++++++++++++++------------
 2 files changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index b3ab202..d46b060 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -75,7 +75,7 @@ impl Convert {
                 }
             };
             part.headers = vec![Header {
-                name: HeaderName::Other("Content-Type".into()),
+                name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index d0a5e2c..ea7812a 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -85,7 +85,7 @@ impl Replace {
                 if !from.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("From".into()),
+                        HeaderName::From,
                         from.to_string()
                             .as_ref()
                             .remove_crlf(ctx.runtime.max_header_size),
@@ -97,7 +97,7 @@ impl Replace {
             if add_from {
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("From".to_string().into()),
+                    HeaderName::From,
                     ctx.user_from_field(),
                     true,
                 );
@@ -108,7 +108,7 @@ impl Replace {
                 if !subject.is_empty() {
                     ctx.insert_header(
                         0,
-                        HeaderName::Other("Subject".into()),
+                        HeaderName::Subject,
                         subject
                             .to_string()
                             .as_ref()
@@ -127,7 +127,7 @@ impl Replace {
 
                 ctx.insert_header(
                     0,
-                    HeaderName::Other("Date".to_string().into()),
+                    HeaderName::Date,
                     header_value,
                     true,
                 );
@@ -142,7 +142,7 @@ impl Replace {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -151,7 +151,7 @@ impl Replace {
         if !self.mime {
             ctx.insert_header(
                 ctx.part,
-                HeaderName::Other("Content-Type".into()),
+                HeaderName::ContentType,
                 "text/plain; charset=utf-8".to_string(),
                 true,
             );
@@ -225,20 +225,20 @@ impl Enclose {
 
         ctx.insert_header(
             0,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             format!("multipart/mixed; boundary=\"{boundary}\""),
             true,
         );
-        ctx.insert_header(0, HeaderName::Other("Subject".into()), subject, true);
+        ctx.insert_header(0, HeaderName::Subject, subject, true);
         ctx.insert_header(
             1,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "text/plain; charset=utf-8",
             true,
         );
         ctx.insert_header(
             2,
-            HeaderName::Other("Content-Type".into()),
+            HeaderName::ContentType,
             "message/rfc822",
             true,
         );
@@ -272,7 +272,7 @@ impl Enclose {
 
                             ctx.insert_header(
                                 0,
-                                HeaderName::Other(header_name.to_string().into()),
+                                name.into_owned(),
                                 header_value.remove_crlf(ctx.runtime.max_header_size),
                                 true,
                             );
@@ -285,7 +285,7 @@ impl Enclose {
         if add_from {
             ctx.insert_header(
                 0,
-                HeaderName::Other("From".to_string().into()),
+                HeaderName::From,
                 ctx.user_from_field(),
                 true,
             );
@@ -299,7 +299,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Date".to_string().into()),
+                HeaderName::Date,
                 header_value,
                 true,
             );
@@ -314,7 +314,7 @@ impl Enclose {
 
             ctx.insert_header(
                 0,
-                HeaderName::Other("Message-ID".to_string().into()),
+                HeaderName::MessageId,
                 String::from_utf8(header_value).unwrap(),
                 true,
             );
@@ -482,7 +482,12 @@ impl Context<'_> {
                             );
                         }
                     } else {
-                        if header.name == HeaderName::Other("Content-Type".into()) {
+                        if header.name == HeaderName::ContentType
+                            && header
+                                .value
+                                .as_text()
+                                .is_some_and(|v| v.contains("boundary=\""))
+                        {
                             ct_pos = header_pos;
                         }
 
-- 
2.43.0


From 87ec9e7fc22be1422108afb448e22eeb4c9f5860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:36 +0000
Subject: [PATCH 25/55] fix: converting a message of a single part keeps its
 headers

---
 src/runtime/actions/action_convert.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index d46b060..68274f0 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -49,7 +49,7 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         };
         let mut did_convert = false;
-        for part in ctx.message.parts.iter_mut() {
+        for (part_id, part) in ctx.message.parts.iter_mut().enumerate() {
             let (new_body, ct) = match (&part.body, conversion) {
                 (PartType::Html(html), Conversion::HtmlToText) => (
                     PartType::Text(html_to_text(html.as_ref()).into()),
@@ -74,13 +74,31 @@ impl Convert {
                     continue;
                 }
             };
-            part.headers = vec![Header {
+            if part_id == 0 {
+                // Keep the headers of the message
+                part.headers.retain(|h| {
+                    !matches!(
+                        h.name,
+                        HeaderName::ContentType | HeaderName::ContentTransferEncoding
+                    )
+                });
+                if part.offset_body != 0 {
+                    ctx.message_size += part
+                        .headers
+                        .iter()
+                        .map(|h| (h.offset_end - h.offset_field) as usize)
+                        .sum::<usize>();
+                }
+            } else {
+                part.headers.clear();
+            }
+            part.headers.push(Header {
                 name: HeaderName::ContentType,
                 value: HeaderValue::Text(ct.to_string().into()),
                 offset_start: 0,
                 offset_end: 0,
                 offset_field: 0,
-            }];
+            });
             ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
                 if part.offset_body != 0 {
                     (part.offset_end - part.offset_header) as usize
-- 
2.43.0


From 15cb3a36030b46139eb59b6eceaa0a44701e2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:58 +0000
Subject: [PATCH 26/55] fix: line breaks in the texts of a vacation reply
 cannot add header fields

---
 src/runtime/actions/action_vacation.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index bee00dd..ee4415c 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -336,8 +336,9 @@ impl Vacation {
     }
 }
 
-fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
+pub(crate) fn write_header(buf: &mut Vec<u8>, name: &str, value: &str) {
     buf.extend_from_slice(name.as_bytes());
-    buf.extend_from_slice(value.as_bytes());
+    // A line break in the value must not start another header field
+    buf.extend(value.bytes().filter(|ch| ![b'\r', b'\n'].contains(ch)));
     buf.extend_from_slice(b"\r\n");
 }
-- 
2.43.0


From fe0b94ab675bc75d0f5aeec9c27ece0c6d2902e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:03 +0000
Subject: [PATCH 27/55] fix: the To field of a vacation reply is a line of its
 own when the sender's field has no line end

---
 src/runtime/actions/action_vacation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index ee4415c..ee9d476 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -262,7 +262,8 @@ impl Vacation {
         write_header(&mut message, "From: ", vacation_from.to_string().as_ref());
         if let Some(vacation_to_full) = vacation_to_full {
             message.extend_from_slice(b"To:");
-            message.extend_from_slice(vacation_to_full);
+            message.extend_from_slice(vacation_to_full.trim_ascii_end());
+            message.extend_from_slice(b"\r\n");
         } else {
             write_header(&mut message, "To: ", vacation_to.to_string().as_ref());
         }
-- 
2.43.0


From e9e005bf37b92318e041024b85b73ae53d4aecc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:09 +0000
Subject: [PATCH 28/55] fix: the References field of a vacation reply ends with
 the id of the message replied to

---
 src/runtime/actions/action_vacation.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index ee9d476..0c9f709 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -277,14 +277,13 @@ impl Vacation {
             message.extend_from_slice(message_id.as_bytes());
             message.extend_from_slice(b">\r\n");
 
-            message.extend_from_slice(b"References: <");
-            message.extend_from_slice(message_id.as_bytes());
+            message.extend_from_slice(b"References:");
             if let Some(references) = references {
-                message.extend_from_slice(b"> ");
-                message.extend_from_slice(references);
-            } else {
-                message.extend_from_slice(b">\r\n");
+                message.extend_from_slice(references.trim_ascii_end());
             }
+            message.extend_from_slice(b" <");
+            message.extend_from_slice(message_id.as_bytes());
+            message.extend_from_slice(b">\r\n");
         }
         message.extend_from_slice(b"Date: ");
         message.extend_from_slice(Date::now().to_rfc822().as_bytes());
-- 
2.43.0


From de1bfeef4098f30d55b624c814b90e68031b44cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:15 +0000
Subject: [PATCH 29/55] fix: a subject that is one character too long also gets
 an ellipsis

---
 src/runtime/actions/action_notify.rs   | 11 +++--------
 src/runtime/actions/action_vacation.rs | 12 +++---------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 713e992..5f62bff 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -180,15 +180,10 @@ impl Notify {
             } else {
                 ctx.message.subject().unwrap_or_default()
             };
-            let mut iter = subject.chars().enumerate();
+            let mut iter = subject.chars();
             let mut buf = [0; 4];
-            #[allow(clippy::while_let_on_iterator)]
-            while let Some((pos, char)) = iter.next() {
-                if pos < MAX_SUBJECT_LEN {
-                    message.extend_from_slice(char.encode_utf8(&mut buf).as_bytes());
-                } else {
-                    break;
-                }
+            for char in iter.by_ref().take(MAX_SUBJECT_LEN) {
+                message.extend_from_slice(char.encode_utf8(&mut buf).as_bytes());
             }
             if iter.next().is_some() {
                 message.extend_from_slice('…'.encode_utf8(&mut buf).as_bytes());
diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 0c9f709..74f149f 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -190,16 +190,10 @@ impl Vacation {
                             .runtime
                             .vacation_subject_prefix
                             .chars()
-                            .chain(subject.chars())
-                            .enumerate();
+                            .chain(subject.chars());
 
-                        #[allow(clippy::while_let_on_iterator)]
-                        while let Some((pos, char)) = iter.next() {
-                            if pos < MAX_SUBJECT_LEN {
-                                vacation_subject_.push(char);
-                            } else {
-                                break;
-                            }
+                        for char in iter.by_ref().take(MAX_SUBJECT_LEN) {
+                            vacation_subject_.push(char);
                         }
                         if iter.next().is_some() {
                             vacation_subject_.push('…');
-- 
2.43.0


From 735fe191777f2829b1918b14089a6e13dee61ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:50 +0000
Subject: [PATCH 30/55] fix: line breaks in the texts and the URI of a
 notification cannot add header fields

---
 src/runtime/actions/action_notify.rs | 32 +++++++++++++++-------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 5f62bff..d6e43ee 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -15,7 +15,10 @@ use crate::{
     Context, Event, Importance, Recipient,
 };
 
-use super::action_vacation::MAX_SUBJECT_LEN;
+use super::{
+    action_editheader::RemoveCrLf,
+    action_vacation::{write_header, MAX_SUBJECT_LEN},
+};
 
 impl Notify {
     pub(crate) fn exec(&self, ctx: &mut Context) {
@@ -93,9 +96,7 @@ impl Notify {
                 + 200;
 
             let mut message = Vec::with_capacity(message_len);
-            message.extend_from_slice(b"From: ");
-            message.extend_from_slice(from.as_bytes());
-            message.extend_from_slice(b"\r\n");
+            write_header(&mut message, "From: ", &from);
 
             for (header, addresses) in [("To: ", &params.to), ("Cc: ", &params.cc)] {
                 if !addresses.is_empty() {
@@ -136,10 +137,14 @@ impl Notify {
                     }
                     _ => (),
                 }
-                message.extend_from_slice(header.as_str().as_bytes());
-                message.extend_from_slice(b": ");
-                message.extend_from_slice(value.as_bytes());
-                message.extend_from_slice(b"\r\n");
+                let name = header
+                    .as_str()
+                    .chars()
+                    .filter(|ch| ch.is_ascii_alphanumeric() || ['-', '_'].contains(ch))
+                    .collect::<String>();
+                if !name.is_empty() {
+                    write_header(&mut message, &format!("{name}: "), value);
+                }
             }
 
             if !has_date {
@@ -172,7 +177,6 @@ impl Notify {
             message.extend_from_slice(priority.as_bytes());
             message.extend_from_slice(b"\r\n");
 
-            message.extend_from_slice(b"Subject: ");
             let subject = if let Some(subject) = has_subject {
                 subject.as_str()
             } else if let Some(subject) = &notify_message {
@@ -181,14 +185,11 @@ impl Notify {
                 ctx.message.subject().unwrap_or_default()
             };
             let mut iter = subject.chars();
-            let mut buf = [0; 4];
-            for char in iter.by_ref().take(MAX_SUBJECT_LEN) {
-                message.extend_from_slice(char.encode_utf8(&mut buf).as_bytes());
-            }
+            let mut subject = iter.by_ref().take(MAX_SUBJECT_LEN).collect::<String>();
             if iter.next().is_some() {
-                message.extend_from_slice('…'.encode_utf8(&mut buf).as_bytes());
+                subject.push('…');
             }
-            message.extend_from_slice(b"\r\n");
+            write_header(&mut message, "Subject: ", &subject);
 
             message.extend_from_slice(b"Auto-Submitted: auto-notified\r\n");
             message.extend_from_slice(b"X-Sieve: yes\r\n");
@@ -554,6 +555,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
 
 #[inline(always)]
 fn insert_address(params: &mut MailtoMessage, name: HeaderName, value: String) {
+    let value = value.as_str().remove_crlf(usize::MAX);
     if !params
         .to
         .iter()
-- 
2.43.0


From bb678d274a8e772349293230ac4a01b9a552cb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:56 +0000
Subject: [PATCH 31/55] fix: a mailto URI whose only recipient is in its to
 field is accepted when another field follows

---
 src/runtime/actions/action_notify.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index d6e43ee..d5065d5 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -490,6 +490,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                             header,
                             String::from_utf8(std::mem::take(&mut buf)).ok()?,
                         );
+                        has_addresses = true;
                     }
                     state = State::ParamName;
                 }
-- 
2.43.0


From 96294995f74c63e30ec1b00150c7d33c254ffea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:04 +0000
Subject: [PATCH 32/55] fix: line breaks in a field name of enclose or the
 subject of the enclosed message cannot add header fields

---
 src/runtime/actions/action_mime.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index ea7812a..0b33363 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -171,7 +171,11 @@ impl Enclose {
                     .as_ref()
                     .remove_crlf(ctx.runtime.max_header_size)
             })
-            .or_else(|| ctx.message.subject().map(|s| s.to_string()))
+            .or_else(|| {
+                ctx.message
+                    .subject()
+                    .map(|s| s.remove_crlf(ctx.runtime.max_header_size))
+            })
             .unwrap_or_default();
 
         let message = std::mem::take(&mut ctx.message);
@@ -249,10 +253,13 @@ impl Enclose {
 
         for header in &self.headers {
             let header = ctx.eval_value(header);
-            if let Some((mut header_name, mut header_value)) =
+            if let Some((header_name, mut header_value)) =
                 header.to_string().as_ref().split_once(':')
             {
-                header_name = header_name.trim();
+                let header_name = header_name
+                    .chars()
+                    .filter(|ch| ch.is_alphanumeric() || *ch == '-')
+                    .collect::<String>();
                 header_value = header_value.trim();
                 if !header_value.is_empty() {
                     if let Some(name) = HeaderName::parse(header_name) {
-- 
2.43.0


From ac71c5b70dd0508dd5bafad782bde13f1c76596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 33/55] fix: header variables give the parts of a header added
 by the script

---
 src/runtime/eval.rs | 40 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/runtime/eval.rs b/src/runtime/eval.rs
index 43da865..a0d242b 100644
--- a/src/runtime/eval.rs
+++ b/src/runtime/eval.rs
@@ -157,7 +157,10 @@ impl<'x> Context<'x> {
             for h in &part.headers {
                 match &header.part {
                     HeaderPart::Raw => {
-                        if let Some(var) = raw
+                        if let Some(text) = added_text(h) {
+                            let line = format!("{}: {}", h.name.as_str(), text);
+                            result.push(Variable::from(sanitize_raw_header(line.as_bytes())));
+                        } else if let Some(var) = raw
                             .get(h.offset_field as usize..h.offset_end as usize)
                             .map(sanitize_raw_header)
                         {
@@ -206,6 +209,32 @@ impl<'x> Context<'x> {
 
 impl HeaderVariable {
     fn eval_part<'x>(&self, header: &'x Header<'x>, raw: &'x [u8], result: &mut Vec<Variable>) {
+        if let Some(text) = added_text(header) {
+            // The header is not in the raw message, evaluate it as it will be written
+            let name = header.name.as_str();
+            let line = format!("{name}: {text}\n");
+            let offset_start = name.len() + 1;
+            let mut stream = MessageStream::new(&line.as_bytes()[offset_start..]);
+            let value = match &self.part {
+                HeaderPart::Address(_) => stream.parse_address(),
+                HeaderPart::Id => stream.parse_id(),
+                HeaderPart::ContentType(_) => stream.parse_content_type(),
+                HeaderPart::Received(_) => stream.parse_received(),
+                _ => HeaderValue::Text(text.into()),
+            };
+            return self.eval_part(
+                &Header {
+                    name: header.name.clone(),
+                    value,
+                    offset_field: 0,
+                    offset_start: offset_start as u32,
+                    offset_end: line.len() as u32,
+                },
+                line.as_bytes(),
+                result,
+            );
+        }
+
         let var = match &self.part {
             HeaderPart::Text => match &header.value {
                 HeaderValue::Text(v) if self.include_single_part() => {
@@ -400,6 +429,15 @@ impl HeaderVariable {
     }
 }
 
+/// Returns the value of a header that was added by the script
+fn added_text<'x>(header: &'x Header<'x>) -> Option<&'x str> {
+    if header.offset_end == 0 {
+        header.value.as_text()
+    } else {
+        None
+    }
+}
+
 impl ReceivedPart {
     pub fn eval<'x>(&self, rcvd: &'x Received<'x>) -> Option<Variable> {
         match self {
-- 
2.43.0


From 56976f51a78390227d3a4bf16a3e89096b54a137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 34/55] fix: fileinto :mailboxid requires the mailboxid
 capability

---
 src/compiler/grammar/actions/action_fileinto.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/grammar/actions/action_fileinto.rs b/src/compiler/grammar/actions/action_fileinto.rs
index 551854a..88a6482 100644
--- a/src/compiler/grammar/actions/action_fileinto.rs
+++ b/src/compiler/grammar/actions/action_fileinto.rs
@@ -73,7 +73,7 @@ impl CompilerState<'_> {
                 Token::Tag(Word::MailboxId) => {
                     self.validate_argument(
                         4,
-                        Capability::Mailbox.into(),
+                        Capability::MailboxId.into(),
                         token_info.line_num,
                         token_info.line_pos,
                     )?;
-- 
2.43.0


From e0e1b0ae1507507d1c028fe2ebbc1c20236ea339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 35/55] fix: a vacation period of very many days does not
 overflow

---
 src/runtime/actions/action_vacation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index 74f149f..cb8ed04 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -145,7 +145,7 @@ impl TestVacation {
                         format!("_v{}{}", from, ctx.eval_value(&self.reason).to_string())
                     },
                     expiry: match &self.period {
-                        Period::Days(days) => days * 86400,
+                        Period::Days(days) => days.saturating_mul(86400),
                         Period::Seconds(seconds) => *seconds,
                         Period::Default => ctx.runtime.default_vacation_expiry,
                     },
-- 
2.43.0


From 2fc2fb9f5d0425700aae1a57105c3439027f57a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:15 +0000
Subject: [PATCH 36/55] fix: let and the flag actions announce a change of the
 envelope where it happens

---
 src/runtime/context.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/context.rs b/src/runtime/context.rs
index 1c358a8..de728e7 100644
--- a/src/runtime/context.rs
+++ b/src/runtime/context.rs
@@ -286,6 +286,9 @@ impl<'x> Context<'x> {
                     Instruction::Let(let_) => match self.eval_expression(&let_.expr) {
                         Ok(result) => {
                             self.set_variable(&let_.name, result);
+                            if let Some(event) = self.queued_events.next() {
+                                return Some(Ok(event));
+                            }
                         }
                         Err(event) => {
                             return Some(Ok(event));
@@ -320,7 +323,12 @@ impl<'x> Context<'x> {
                             return Some(Ok(event));
                         }
                     }
-                    Instruction::EditFlags(flags) => flags.exec(self),
+                    Instruction::EditFlags(flags) => {
+                        flags.exec(self);
+                        if let Some(event) = self.queued_events.next() {
+                            return Some(Ok(event));
+                        }
+                    }
                     Instruction::Include(include) => match include.exec(self) {
                         IncludeResult::Cached(script) => {
                             self.script_stack.push(ScriptStack {
-- 
2.43.0


From 747732a1e3bbd093808ffeb6c62b633b292ddc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:49 +0000
Subject: [PATCH 37/55] fix: extracttext keeps the variable size limit

---
 src/runtime/actions/action_mime.rs | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index 0b33363..dc42edd 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -9,10 +9,7 @@ use mail_parser::{
 };
 
 use crate::{
-    compiler::{
-        grammar::actions::action_mime::{Enclose, ExtractText, Replace},
-        VariableType,
-    },
+    compiler::grammar::actions::action_mime::{Enclose, ExtractText, Replace},
     Context, Event,
 };
 
@@ -359,23 +356,7 @@ impl ExtractText {
             }
         }
 
-        match &self.name {
-            VariableType::Local(var_id) => {
-                if let Some(var) = ctx.vars_local.get_mut(*var_id) {
-                    *var = value.into();
-                } else {
-                    debug_assert!(false, "Non-existent local variable {var_id}");
-                }
-            }
-            VariableType::Global(var_name) => {
-                ctx.vars_global
-                    .insert(var_name.to_string().into(), value.into());
-            }
-            VariableType::Envelope(env) => {
-                ctx.add_set_envelope_event(*env, value);
-            }
-            _ => (),
-        }
+        ctx.set_variable(&self.name, value.into());
     }
 }
 
-- 
2.43.0


From 90a0556ac543dfb62bfdc909cbe02e77a9b51888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:49 +0000
Subject: [PATCH 38/55] fix: a vacation reply refers to a Message-ID added by
 the script without doubling its brackets

---
 src/runtime/actions/action_vacation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_vacation.rs b/src/runtime/actions/action_vacation.rs
index cb8ed04..597ced4 100644
--- a/src/runtime/actions/action_vacation.rs
+++ b/src/runtime/actions/action_vacation.rs
@@ -202,7 +202,11 @@ impl Vacation {
                     }
                 }
                 HeaderName::MessageId => {
-                    message_id = header.value.as_text();
+                    // The text of a header added by the script includes the brackets
+                    message_id = header
+                        .value
+                        .as_text()
+                        .map(|id| id.trim_matches(['<', '>', ' ']));
                 }
                 HeaderName::References => {
                     if header.offset_start > 0 {
-- 
2.43.0


From 3cf6326c1d852011fb9f9df03cc208f7f5c071d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:35 +0000
Subject: [PATCH 39/55] fix: every enclosing foreverypart counts towards the
 nesting limit

---
 src/compiler/grammar/instruction.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/instruction.rs b/src/compiler/grammar/instruction.rs
index ca482f3..ed87b76 100644
--- a/src/compiler/grammar/instruction.rs
+++ b/src/compiler/grammar/instruction.rs
@@ -234,9 +234,10 @@ impl Compiler {
                             if state
                                 .block_stack
                                 .iter()
+                                .chain([&state.block])
                                 .filter(|b| matches!(&b.btype, Word::ForEveryPart))
                                 .count()
-                                == self.max_nested_foreverypart
+                                > self.max_nested_foreverypart
                             {
                                 return Err(
                                     token_info.custom(ErrorType::TooManyNestedForEveryParts)
-- 
2.43.0


From 0777971139b758cfa53e82ea37970422708810b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 40/55] fix: commas in the string lists of an unknown test do
 not end it

---
 src/compiler/grammar/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index dba1559..e89f507 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -234,9 +234,12 @@ impl CompilerState<'_> {
         let mut d_count = 0;
         while let Some(token_info) = self.tokens.peek() {
             match token_info?.token {
-                Token::ParenthesisOpen => {
+                Token::ParenthesisOpen | Token::BracketOpen => {
                     d_count += 1;
                 }
+                Token::BracketClose if d_count > 0 => {
+                    d_count -= 1;
+                }
                 Token::ParenthesisClose => {
                     if d_count == 0 {
                         break;
-- 
2.43.0


From d33363f560338d8fcd4b693c9c492917ccb2490b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:41 +0000
Subject: [PATCH 41/55] fix: tests of allof and anyof are separated by commas
 and at least one

---
 src/compiler/grammar/test.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/compiler/grammar/test.rs b/src/compiler/grammar/test.rs
index cec2294..fbbef1e 100644
--- a/src/compiler/grammar/test.rs
+++ b/src/compiler/grammar/test.rs
@@ -129,10 +129,21 @@ impl CompilerState<'_> {
             jmps: Vec::new(),
         };
         let mut is_not = false;
+        let mut has_test = false;
 
         loop {
             let token_info = self.tokens.unwrap_next()?;
             self.reset_param_check();
+
+            // Tests of a list are separated by commas and a list is never empty
+            match &token_info.token {
+                Token::Comma => has_test = false,
+                Token::ParenthesisClose if has_test || block.p_count > 0 => (),
+                Token::ParenthesisClose => return Err(token_info.expected("test name")),
+                _ if has_test => return Err(token_info.expected("',' or ')'")),
+                _ => (),
+            }
+
             let test: Instruction =
                 match token_info.token {
                     Token::Comma
@@ -180,6 +191,7 @@ impl CompilerState<'_> {
 
                             block = prev_block;
                             is_not = block.is_not;
+                            has_test = true;
                             if block_stack.is_empty() {
                                 break;
                             } else {
@@ -553,6 +565,7 @@ impl CompilerState<'_> {
 
             self.instructions
                 .push(if !is_not { test } else { test.set_not() });
+            has_test = true;
 
             if block_stack.is_empty() {
                 break;
-- 
2.43.0


From fae4f98ea3dce2f1bb8d36bfe7e6a9126b1b2756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 42/55] fix: a successful match replaces all match variables

---
 src/runtime/variables.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/variables.rs b/src/runtime/variables.rs
index b6fa185..bc858ee 100644
--- a/src/runtime/variables.rs
+++ b/src/runtime/variables.rs
@@ -10,6 +10,10 @@ use super::Variable;
 
 impl Context<'_> {
     pub(crate) fn set_match_variables(&mut self, set_vars: Vec<(usize, String)>) {
+        // The match variables are those of the last successful match
+        for var in &mut self.vars_match {
+            *var = Variable::default();
+        }
         for (var_num, value) in set_vars {
             if let Some(var) = self.vars_match.get_mut(var_num) {
                 *var = value.into();
-- 
2.43.0


From af60fbd19b69572f9bc68c2d9b5165efbead2d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:44 +0000
Subject: [PATCH 43/55] fix: a notification has each of its own header fields
 once

---
 src/runtime/actions/action_notify.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index d5065d5..4cf9ced 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -127,12 +127,26 @@ impl Notify {
                         continue;
                     }
                     HeaderName::Date => {
+                        if has_date {
+                            continue;
+                        }
                         has_date = true;
                     }
                     HeaderName::MessageId => {
+                        if has_message_id {
+                            continue;
+                        }
                         has_message_id = true;
                     }
-                    HeaderName::From => {
+                    // Header fields set by the action itself
+                    HeaderName::From | HeaderName::ContentType => {
+                        continue;
+                    }
+                    HeaderName::Other(name)
+                        if ["Auto-Submitted", "X-Sieve", "Importance", "X-Priority"]
+                            .iter()
+                            .any(|own| own.eq_ignore_ascii_case(name)) =>
+                    {
                         continue;
                     }
                     _ => (),
@@ -531,11 +545,8 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
                 insert_address(&mut params, header, value);
                 has_addresses = true;
             }
-            State::ParamName => {
-                params
-                    .headers
-                    .push((HeaderName::Other(value.into()), String::new()));
-            }
+            // A name without a value sets nothing
+            State::ParamName => (),
             State::ParamValue(param) => match param {
                 Mailto::Header(header) => params.headers.push((header, value)),
                 Mailto::Body => params.body = value.into(),
-- 
2.43.0


From c7649ab05cb011ddc0c9d55a9bdba6910b49cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:01 +0000
Subject: [PATCH 44/55] fix: spaces around the addresses of a mailto URI are
 not part of them

---
 src/runtime/actions/action_notify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index 4cf9ced..d155344 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -567,7 +567,7 @@ fn parse_mailto(uri: &str) -> Option<MailtoMessage> {
 
 #[inline(always)]
 fn insert_address(params: &mut MailtoMessage, name: HeaderName, value: String) {
-    let value = value.as_str().remove_crlf(usize::MAX);
+    let value = value.trim().remove_crlf(usize::MAX);
     if !params
         .to
         .iter()
-- 
2.43.0


From 82a7fb5125b68d06d817004cce9a981d6176baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:15 +0000
Subject: [PATCH 45/55] fix: convert changes only parts of the media type named

---
 src/runtime/actions/action_convert.rs | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index 68274f0..db34783 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -16,7 +16,6 @@ use crate::{
 #[derive(Clone, Copy)]
 enum Conversion {
     TextToHtml,
-    TextPlainToHtml,
     HtmlToText,
 }
 
@@ -32,15 +31,14 @@ impl Convert {
             return TestResult::Bool(false ^ self.is_not);
         }
 
-        let conversion = if (from_media_type.eq_ignore_ascii_case("text")
-            || from_media_type.starts_with("text/"))
+        // Parts are converted from text/* to HTML when they have this subtype
+        let (from_type, from_subtype) = from_media_type
+            .split_once('/')
+            .unwrap_or((from_media_type.as_ref(), "plain"));
+        let conversion = if from_type.eq_ignore_ascii_case("text")
             && to_media_type.eq_ignore_ascii_case("text/html")
         {
-            if from_media_type.eq_ignore_ascii_case("text") {
-                Conversion::TextPlainToHtml
-            } else {
-                Conversion::TextToHtml
-            }
+            Conversion::TextToHtml
         } else if from_media_type.eq_ignore_ascii_case("text/html")
             && to_media_type.eq_ignore_ascii_case("text/plain")
         {
@@ -55,15 +53,12 @@ impl Convert {
                     PartType::Text(html_to_text(html.as_ref()).into()),
                     "text/plain; charset=utf8",
                 ),
-                (PartType::Text(text), Conversion::TextToHtml) => (
-                    PartType::Html(text_to_html(text.as_ref()).into()),
-                    "text/html; charset=utf8",
-                ),
-                (PartType::Text(text), Conversion::TextPlainToHtml)
+                (PartType::Text(text), Conversion::TextToHtml)
                     if part
                         .content_type()
-                        .and_then(|ct| ct.c_subtype.as_ref())
-                        .is_some_and(|st| st.eq_ignore_ascii_case("plain")) =>
+                        .and_then(|ct| ct.c_subtype.as_deref())
+                        .unwrap_or("plain")
+                        .eq_ignore_ascii_case(from_subtype) =>
                 {
                     (
                         PartType::Html(text_to_html(text.as_ref()).into()),
-- 
2.43.0


From 1df291003e0d1852f6e4b9b220862e7683b0fa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:49 +0000
Subject: [PATCH 46/55] fix: the size test sees the size of the message after
 replace, enclose and convert

---
 src/runtime/actions/action_convert.rs | 15 +--------------
 src/runtime/actions/action_mime.rs    | 16 ++++------------
 2 files changed, 5 insertions(+), 26 deletions(-)

diff --git a/src/runtime/actions/action_convert.rs b/src/runtime/actions/action_convert.rs
index db34783..faa8795 100644
--- a/src/runtime/actions/action_convert.rs
+++ b/src/runtime/actions/action_convert.rs
@@ -77,13 +77,6 @@ impl Convert {
                         HeaderName::ContentType | HeaderName::ContentTransferEncoding
                     )
                 });
-                if part.offset_body != 0 {
-                    ctx.message_size += part
-                        .headers
-                        .iter()
-                        .map(|h| (h.offset_end - h.offset_field) as usize)
-                        .sum::<usize>();
-                }
             } else {
                 part.headers.clear();
             }
@@ -94,13 +87,6 @@ impl Convert {
                 offset_end: 0,
                 offset_field: 0,
             });
-            ctx.message_size = (ctx.message_size + ct.len() + new_body.len() + 16).saturating_sub(
-                if part.offset_body != 0 {
-                    (part.offset_end - part.offset_header) as usize
-                } else {
-                    part.body.len()
-                },
-            );
             part.offset_body = 0;
             part.body = new_body;
             part.encoding = Encoding::QuotedPrintable; //Used as non-mime flag
@@ -109,6 +95,7 @@ impl Convert {
 
         if did_convert {
             ctx.has_changes = true;
+            ctx.message_size = ctx.build_message().len();
         }
 
         TestResult::Bool(did_convert ^ self.is_not)
diff --git a/src/runtime/actions/action_mime.rs b/src/runtime/actions/action_mime.rs
index dc42edd..6f7e3be 100644
--- a/src/runtime/actions/action_mime.rs
+++ b/src/runtime/actions/action_mime.rs
@@ -28,15 +28,8 @@ impl Replace {
 
         // Update part
         let body = ctx.eval_value(&self.replacement).to_string().into_owned();
-        let body_len = body.len();
 
         let part = &mut ctx.message.parts[ctx.part as usize];
-
-        ctx.message_size = (ctx.message_size + body_len).saturating_sub(if part.offset_body != 0 {
-            (part.offset_end - part.offset_header) as usize
-        } else {
-            part.body.len()
-        });
         part.body = PartType::Text(body.into());
         part.encoding = if !self.mime {
             Encoding::QuotedPrintable
@@ -49,20 +42,17 @@ impl Replace {
 
         if ctx.part == 0 {
             for mut header in prev_headers {
-                let mut size = (header.offset_end - header.offset_field) as usize;
                 match &header.name {
                     HeaderName::Subject => {
                         if self.subject.is_some() {
                             header.name = HeaderName::Other("Original-Subject".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
                     HeaderName::From => {
                         if self.from.is_some() {
                             header.name = HeaderName::Other("Original-From".into());
                             header.offset_field = header.offset_start;
-                            size += "Original-".len();
                         }
                     }
 
@@ -72,7 +62,6 @@ impl Replace {
                     }
                     _ => continue,
                 }
-                ctx.message_size += size;
                 part.headers.push(header);
             }
 
@@ -153,6 +142,8 @@ impl Replace {
                 true,
             );
         }
+
+        ctx.message_size = ctx.build_message().len();
     }
 }
 
@@ -181,7 +172,6 @@ impl Enclose {
         #[cfg(not(test))]
         let boundary = mail_builder::mime::make_boundary(".");
 
-        ctx.message_size += ((boundary.len() + 6) * 3) + body.len() + 2;
         ctx.part = 0;
         ctx.part_iter = Vec::new().into_iter();
         for prev_part in &mut ctx.part_iter_stack {
@@ -323,6 +313,8 @@ impl Enclose {
                 true,
             );
         }
+
+        ctx.message_size = ctx.build_message().len();
     }
 }
 
-- 
2.43.0


From eb34d4c918fc8cc57df9774bacf9ab9a1197a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:12 +0000
Subject: [PATCH 47/55] fix: malformed expressions are rejected

---
 src/compiler/grammar/expr/parser.rs    | 46 +++++++++++++++++++++++---
 src/compiler/grammar/expr/tokenizer.rs |  8 -----
 2 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/compiler/grammar/expr/parser.rs b/src/compiler/grammar/expr/parser.rs
index 5780d96..3bb070e 100644
--- a/src/compiler/grammar/expr/parser.rs
+++ b/src/compiler/grammar/expr/parser.rs
@@ -36,10 +36,37 @@ where
     pub fn parse(mut self) -> Result<Self, String> {
         let mut last_is_var_or_fnc = false;
         let mut last_is_open_bracket = false;
+        let mut last_is_open = false;
+        let mut expect_operand = true;
 
         while let Some(token) = self.tokenizer.next()? {
             let mut is_var_or_fnc = false;
             let is_open_bracket = matches!(token, Token::OpenBracket);
+            let is_open = is_open_bracket || matches!(token, Token::OpenParen);
+
+            // Operands and operators have to alternate
+            let starts_operand = match &token {
+                Token::BinaryOperator(_) | Token::Comma => false,
+                Token::OpenBracket => !last_is_var_or_fnc,
+                Token::CloseParen | Token::CloseBracket => last_is_open,
+                _ => true,
+            };
+            if starts_operand != expect_operand {
+                return Err(if expect_operand {
+                    "Expected an operand".to_string()
+                } else {
+                    "Expected an operator".to_string()
+                });
+            }
+            expect_operand = !matches!(
+                token,
+                Token::Variable(_)
+                    | Token::Number(_)
+                    | Token::String(_)
+                    | Token::CloseParen
+                    | Token::CloseBracket
+            );
+
             match token {
                 Token::Variable(v) => {
                     self.inc_arg_count();
@@ -109,6 +136,8 @@ where
 
                         self.operator_stack.pop();
                         self.output.push(expr);
+                    } else if last_is_open {
+                        return Err("Expected an operand".to_string());
                     }
 
                     is_var_or_fnc = true;
@@ -197,17 +226,24 @@ where
                         }
                     }
 
-                    if let [.., (Token::Function { id, num_args, .. }, _), (Token::OpenBracket, _)] =
-                        self.operator_stack.as_mut_slice()
-                    {
-                        if *id == ID_ARRAY_BUILD {
-                            *num_args += 1;
+                    match self.operator_stack.as_mut_slice() {
+                        [.., (Token::Function { id, num_args, .. }, _), (Token::OpenBracket, _)] => {
+                            if *id == ID_ARRAY_BUILD {
+                                *num_args += 1;
+                            }
                         }
+                        [.., (Token::Function { .. }, _), (Token::OpenParen, _)] => (),
+                        _ => return Err("Unexpected comma".to_string()),
                     }
                 }
             }
             last_is_var_or_fnc = is_var_or_fnc;
             last_is_open_bracket = is_open_bracket;
+            last_is_open = is_open;
+        }
+
+        if expect_operand && (!self.output.is_empty() || !self.operator_stack.is_empty()) {
+            return Err("Expected an operand".to_string());
         }
 
         while let Some((token, jmp_pos)) = self.operator_stack.pop() {
diff --git a/src/compiler/grammar/expr/tokenizer.rs b/src/compiler/grammar/expr/tokenizer.rs
index 237849f..7136014 100644
--- a/src/compiler/grammar/expr/tokenizer.rs
+++ b/src/compiler/grammar/expr/tokenizer.rs
@@ -26,7 +26,6 @@ where
     has_dot: bool,
     has_alpha: bool,
     is_start: bool,
-    is_eof: bool,
 }
 
 impl<'x, F> Tokenizer<'x, F>
@@ -49,7 +48,6 @@ where
             has_dot: false,
             has_alpha: false,
             is_start: true,
-            is_eof: false,
             token_map,
         }
     }
@@ -58,8 +56,6 @@ where
     pub(crate) fn next(&mut self) -> Result<Option<Token>, String> {
         if let Some(token) = self.next_token.pop() {
             return Ok(Some(token));
-        } else if self.is_eof {
-            return Ok(None);
         }
 
         while let Some((_, &ch)) = self.iter.next() {
@@ -76,10 +72,6 @@ where
                     self.buf.push(ch);
                     self.has_dot = true;
                 }
-                b'}' => {
-                    self.is_eof = true;
-                    break;
-                }
                 b'[' if matches!(self.buf.get(0..7), Some(b"header.")) => {
                     self.buf.push(ch);
                 }
-- 
2.43.0


From 9d7dfd1a5d2b88011bdaa29a60204e1aafbf84f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:02 +0000
Subject: [PATCH 48/55] fix: redirect to lists whose name is not an address

---
 src/runtime/actions/action_redirect.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index f4ae341..2ef4bc9 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -13,8 +13,18 @@ use crate::{
 
 impl Redirect {
     pub(crate) fn exec(&self, ctx: &mut Context) {
-        if let Some(address) = sanitize_address(ctx.eval_value(&self.address).to_string().as_ref())
-        {
+        let address = ctx.eval_value(&self.address);
+        let address = address.to_string();
+        let address = if !self.list {
+            sanitize_address(address.as_ref())
+        } else {
+            // Lists are named by any URI
+            Some(address.trim())
+                .filter(|list| !list.is_empty() && !list.contains(|ch: char| ch.is_control()))
+                .map(|list| list.to_string())
+        };
+
+        if let Some(address) = address {
             if ctx.num_redirects < ctx.runtime.max_redirects
                 && ctx.num_out_messages < ctx.runtime.max_out_messages
                 && ctx.message.parts[0]
-- 
2.43.0


From 4e36575918f7b48d2b7244758a21fdf6ed57b8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:51 +0000
Subject: [PATCH 49/55] fix: redirect reads quoted strings in addresses and
 accepts nothing around an address but a name

---
 src/runtime/actions/action_redirect.rs | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/runtime/actions/action_redirect.rs b/src/runtime/actions/action_redirect.rs
index 2ef4bc9..f2f2b0e 100644
--- a/src/runtime/actions/action_redirect.rs
+++ b/src/runtime/actions/action_redirect.rs
@@ -99,19 +99,28 @@ impl Redirect {
 pub(crate) fn sanitize_address(addr: &str) -> Option<String> {
     let mut result = String::with_capacity(addr.len());
     let mut in_quote = false;
-    let mut last_ch = '\n';
+    let mut is_escaped = false;
+    let mut is_end = false;
     let mut has_at = false;
     let mut has_dot = false;
 
     for ch in addr.chars() {
         match ch {
-            '\"' => {
-                if !in_quote {
-                    in_quote = true;
-                } else if last_ch != '\\' {
-                    in_quote = false;
+            _ if is_end => {
+                if !ch.is_ascii_whitespace() {
+                    return None;
                 }
             }
+            _ if is_escaped => {
+                is_escaped = false;
+                result.push(ch);
+            }
+            '\"' => {
+                in_quote = !in_quote;
+            }
+            '\\' if in_quote => {
+                is_escaped = true;
+            }
             '@' if !in_quote => {
                 if !has_at && !result.is_empty() {
                     has_at = true;
@@ -124,22 +133,23 @@ pub(crate) fn sanitize_address(addr: &str) -> Option<String> {
                 has_dot = true;
                 result.push(ch);
             }
-            '<' => {
+            '<' if !in_quote => {
                 result.clear();
                 has_at = false;
                 has_dot = false;
             }
-            '>' => (),
+            '>' if !in_quote => {
+                is_end = true;
+            }
             _ => {
                 if !ch.is_ascii_whitespace() || in_quote {
                     result.push(ch);
                 }
             }
         }
-        last_ch = ch;
     }
 
-    if !result.is_empty() && has_at && has_dot {
+    if !in_quote && has_at && has_dot && !result.contains(|ch: char| ch.is_control()) {
         Some(result)
     } else {
         None
-- 
2.43.0


From 639891a7aad24fe7be34099ef3fd65047e7ff52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:39 +0000
Subject: [PATCH 50/55] fix: the parts of an address of a header variable
 (addr.local, addr.domain, addr.user, addr.detail)

---
 src/compiler/lexer/string.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/compiler/lexer/string.rs b/src/compiler/lexer/string.rs
index 3211b53..29344fc 100644
--- a/src/compiler/lexer/string.rs
+++ b/src/compiler/lexer/string.rs
@@ -625,10 +625,10 @@ impl TryFrom<&str> for AddressPart {
         Ok(match value {
             "name" => AddressPart::Name,
             "addr" | "all" => AddressPart::All,
-            "addr.domain" => AddressPart::Domain,
-            "addr.local" => AddressPart::LocalPart,
-            "addr.user" => AddressPart::User,
-            "addr.detail" => AddressPart::Detail,
+            "domain" | "addr.domain" => AddressPart::Domain,
+            "local" | "addr.local" => AddressPart::LocalPart,
+            "user" | "addr.user" => AddressPart::User,
+            "detail" | "addr.detail" => AddressPart::Detail,
             _ => return Err(()),
         })
     }
-- 
2.43.0


From eb28ad2ca582576b69482772c07e8af359bb9a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:06 +0000
Subject: [PATCH 51/55] fix: keep the order of :replace modifiers when there
 are more than 20 modifiers

---
 src/compiler/grammar/actions/action_mime.rs | 2 +-
 src/compiler/grammar/actions/action_set.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/grammar/actions/action_mime.rs b/src/compiler/grammar/actions/action_mime.rs
index 0e2dddd..9dcfd5f 100644
--- a/src/compiler/grammar/actions/action_mime.rs
+++ b/src/compiler/grammar/actions/action_mime.rs
@@ -202,7 +202,7 @@ impl CompilerState<'_> {
             }
         }
 
-        modifiers.sort_unstable_by_key(|m| std::cmp::Reverse(m.order()));
+        modifiers.sort_by_key(|m| std::cmp::Reverse(m.order()));
 
         self.instructions
             .push(Instruction::ExtractText(ExtractText {
diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index 60e74dd..a3634cb 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -130,7 +130,7 @@ impl CompilerState<'_> {
             }
         }
 
-        modifiers.sort_unstable_by_key(|m| std::cmp::Reverse(m.order()));
+        modifiers.sort_by_key(|m| std::cmp::Reverse(m.order()));
 
         self.instructions.push(Instruction::Set(Set {
             modifiers,
-- 
2.43.0


From 4468d6efb04324a347467a00b5b169fcef580cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:06 +0000
Subject: [PATCH 52/55] fix: require one comma between the strings of a list

---
 src/compiler/grammar/mod.rs     | 25 ++++++++++++++++++-------
 src/compiler/lexer/tokenizer.rs |  2 +-
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/compiler/grammar/mod.rs b/src/compiler/grammar/mod.rs
index e89f507..d807872 100644
--- a/src/compiler/grammar/mod.rs
+++ b/src/compiler/grammar/mod.rs
@@ -306,14 +306,18 @@ impl CompilerState<'_> {
         match token_info.token {
             Token::BracketOpen => {
                 let mut strings = Vec::new();
+                let mut is_separated = true;
                 loop {
                     let token_info = self.tokens.unwrap_next()?;
                     match token_info.token {
-                        Token::StringConstant(string) => {
+                        Token::StringConstant(string) if is_separated => {
                             strings.push(string.into_string());
+                            is_separated = false;
                         }
-                        Token::Comma => (),
-                        Token::BracketClose if !strings.is_empty() => break,
+                        Token::Comma if !is_separated => {
+                            is_separated = true;
+                        }
+                        Token::BracketClose if !is_separated => break,
                         _ => return Err(token_info.expected("constant string")),
                     }
                 }
@@ -408,13 +412,15 @@ impl CompilerState<'_> {
         allow_empty: bool,
     ) -> Result<Vec<Value>, CompileError> {
         let mut strings = Vec::new();
+        let mut is_separated = true;
         loop {
             let token_info = self.tokens.unwrap_next()?;
             match token_info.token {
-                Token::StringConstant(s) => {
+                Token::StringConstant(s) if is_separated => {
                     strings.push(Value::from(s));
+                    is_separated = false;
                 }
-                Token::StringVariable(s) => {
+                Token::StringVariable(s) if is_separated => {
                     strings.push(self.tokenize_string(&s, true).map_err(|error_type| {
                         CompileError {
                             line_num: token_info.line_num,
@@ -422,9 +428,14 @@ impl CompilerState<'_> {
                             error_type,
                         }
                     })?);
+                    is_separated = false;
+                }
+                Token::Comma if !is_separated => {
+                    is_separated = true;
+                }
+                Token::BracketClose if !is_separated || (strings.is_empty() && allow_empty) => {
+                    break
                 }
-                Token::Comma => (),
-                Token::BracketClose if !strings.is_empty() || allow_empty => break,
                 _ => return Err(token_info.expected("string or string list")),
             }
         }
diff --git a/src/compiler/lexer/tokenizer.rs b/src/compiler/lexer/tokenizer.rs
index 4a3ee9f..740517b 100644
--- a/src/compiler/lexer/tokenizer.rs
+++ b/src/compiler/lexer/tokenizer.rs
@@ -280,7 +280,7 @@ impl<'x> Tokenizer<'x> {
                 loop {
                     let token_info = self.unwrap_next()?;
                     match token_info.token {
-                        Token::StringConstant(string_) => {
+                        Token::StringConstant(string_) if string.is_none() => {
                             string = string_.into();
                         }
                         Token::BracketClose if string.is_some() => break,
-- 
2.43.0


From 974e94dd4e47f644e469b9753d8e0f450cb58e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:36 +0000
Subject: [PATCH 53/55] fix: reject what is no variable name where a variable
 is set

---
 src/compiler/grammar/actions/action_set.rs | 31 +++++++++++++++++-----
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/compiler/grammar/actions/action_set.rs b/src/compiler/grammar/actions/action_set.rs
index a3634cb..51338dd 100644
--- a/src/compiler/grammar/actions/action_set.rs
+++ b/src/compiler/grammar/actions/action_set.rs
@@ -155,13 +155,30 @@ impl CompilerState<'_> {
         register_as_local: bool,
     ) -> Result<VariableType, CompileError> {
         match token_info.token {
-            Token::StringConstant(value) => self
-                .register_variable(value.into_string(), register_as_local)
-                .map_err(|error_type| CompileError {
-                    line_num: token_info.line_num,
-                    line_pos: token_info.line_pos,
-                    error_type,
-                }),
+            Token::StringConstant(value) => {
+                let name = value.into_string();
+                if name.is_empty()
+                    || name.bytes().all(|ch| ch.is_ascii_digit())
+                    || !name
+                        .bytes()
+                        .all(|ch| ch.is_ascii_alphanumeric() || [b'_', b'-', b'.'].contains(&ch))
+                {
+                    return Err(CompileError {
+                        line_num: token_info.line_num,
+                        line_pos: token_info.line_pos,
+                        error_type: ErrorType::UnexpectedToken {
+                            expected: "variable name".into(),
+                            found: name,
+                        },
+                    });
+                }
+                self.register_variable(name, register_as_local)
+                    .map_err(|error_type| CompileError {
+                        line_num: token_info.line_num,
+                        line_pos: token_info.line_pos,
+                        error_type,
+                    })
+            }
             _ => Err(token_info.custom(ErrorType::ExpectedConstantString)),
         }
     }
-- 
2.43.0


From 0ed88f032d8c7e327da34a613251d9b5df527b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:46 +0000
Subject: [PATCH 54/55] fix: compare the scheme of a notification URI in any
 case

---
 src/runtime/actions/action_notify.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/runtime/actions/action_notify.rs b/src/runtime/actions/action_notify.rs
index d155344..2c36984 100644
--- a/src/runtime/actions/action_notify.rs
+++ b/src/runtime/actions/action_notify.rs
@@ -347,14 +347,14 @@ pub fn validate_from(addr: &str) -> bool {
 
 pub fn validate_uri(uri: &str) -> Option<&str> {
     let (scheme, uri) = parse_uri(uri)?;
-    if scheme.eq_ignore_ascii_case("mailto") {
+    // The name of a scheme is case-insensitive
+    let scheme = ["mailto", "xmpp", "tel", "http", "https"]
+        .into_iter()
+        .find(|name| name.eq_ignore_ascii_case(scheme))?;
+    if scheme == "mailto" {
         parse_mailto(uri)?;
-        scheme.into()
-    } else if ["xmpp", "tel", "http", "https"].contains(&scheme) {
-        scheme.into()
-    } else {
-        None
     }
+    Some(scheme)
 }
 
 pub(crate) fn parse_uri(uri: &str) -> Option<(&str, &str)> {
-- 
2.43.0


From 904c7e3d60c7b0f23645d03fe6a8e896c02fc0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:56 +0000
Subject: [PATCH 55/55] fix: do not let :replace build more than a variable
 holds

---
 src/runtime/actions/action_set.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/runtime/actions/action_set.rs b/src/runtime/actions/action_set.rs
index 005da43..27f215b 100644
--- a/src/runtime/actions/action_set.rs
+++ b/src/runtime/actions/action_set.rs
@@ -197,10 +197,24 @@ impl Modifier {
                 }
                 result
             }
-            Modifier::Replace { find, replace } => input.replace(
-                ctx.eval_value(find).to_string().as_ref(),
-                ctx.eval_value(replace).to_string().as_ref(),
-            ),
+            Modifier::Replace { find, replace } => {
+                let find = ctx.eval_value(find);
+                let find = find.to_string();
+                let replace = ctx.eval_value(replace);
+                let replace = replace.to_string();
+                let mut result = String::with_capacity(input.len().min(max_len));
+                for (pos, text) in input.split(find.as_ref()).enumerate() {
+                    let replace = if pos != 0 { replace.as_ref() } else { "" };
+                    for char in replace.chars().chain(text.chars()) {
+                        if result.len() + char.len_utf8() <= max_len {
+                            result.push(char);
+                        } else {
+                            return result;
+                        }
+                    }
+                }
+                result
+            }
         }
     }
 }
-- 
2.43.0

