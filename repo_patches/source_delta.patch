From 8db015b456c2d8f96528c04e40d5d3ca79ca552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:23 +0000
Subject: [PATCH 01/18] fix: reject empty sub expressions in token patterns

An empty alternative or an empty group produced a concatenation without
elements, which made the compiler panic instead of reporting an error.
---
 pango-lexer/src/regex/parser.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index 05eb250..22bc885 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -135,13 +135,6 @@ impl<'a> Parser<'a> {
 
     /// Rule: `sub_expression ::= sub_exrpession_item+`
     fn sub_expression(&mut self) -> ParseResult<Vec<ast::ExprKind>> {
-        if self.tokens.peek().is_none() {
-            return Err(W(vec![ParseError {
-                kind: ParseErrorKind::SubExpression,
-                pos: self.get_current_token_position(),
-            }]));
-        }
-
         let mut literals = Vec::new();
         while !matches!(
             self.tokens.peek(),
@@ -154,6 +147,13 @@ impl<'a> Parser<'a> {
             literals.push(self.sub_expression_item()?);
         }
 
+        if literals.is_empty() {
+            return Err(W(vec![ParseError {
+                kind: ParseErrorKind::SubExpression,
+                pos: self.get_current_token_position(),
+            }]));
+        }
+
         Ok(literals)
     }
 
-- 
2.43.0


From 6287ccdaa9ba4d37c80c232161eed3b9eb7840c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:31 +0000
Subject: [PATCH 02/18] fix: reject token patterns with text after the
 expression

A closing parenthesis without a matching opening one ended the pattern,
silently dropping the rest of it.
---
 pango-lexer/src/regex/parser.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index 22bc885..f377d02 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -39,6 +39,7 @@ pub enum ParseErrorKind {
     CharacterGroupItem,
     CharacterClassCharacter,
     TokenForCharacterGroupItem,
+    EndOfExpression,
 }
 
 impl std::fmt::Display for ParseErrorKind {
@@ -60,6 +61,7 @@ impl std::fmt::Display for ParseErrorKind {
                 CharacterClassCharacter => "expected CHARACTER_CLASS or CHARACTER",
                 TokenForCharacterGroupItem =>
                     "expected at least one token for the character group item",
+                EndOfExpression => "expected the end of the expression",
             }
         )
     }
@@ -100,7 +102,7 @@ impl<'a> Parser<'a> {
             return Ok(Ast(ast::ExprKind::Empty));
         }
 
-        match self.expression() {
+        match self.expression().and_then(|expr| self.end().map(|_| expr)) {
             Ok(expr) => Ok(Ast(expr)),
             Err(mut errs) => {
                 self.errors.append(&mut errs.0);
@@ -109,6 +111,18 @@ impl<'a> Parser<'a> {
         }
     }
 
+    /// Checks that all tokens have been parsed.
+    fn end(&mut self) -> ParseResult<()> {
+        if self.tokens.peek().is_some() {
+            return Err(W(vec![ParseError {
+                kind: ParseErrorKind::EndOfExpression,
+                pos: self.get_current_token_position(),
+            }]));
+        }
+
+        Ok(())
+    }
+
     /// Rule: `expression ::= sub_expression (VERTICAL expression)?`
     fn expression(&mut self) -> ParseResult<ast::ExprKind> {
         let mut lhs = self.sub_expression()?;
-- 
2.43.0


From 524243bd60b15572a3039fb409ac72d02b444ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:37 +0000
Subject: [PATCH 03/18] fix: report repetition counts just above u32::MAX as
 invalid

Adding the last digit was not checked for overflow.
---
 pango-lexer/src/regex/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index aab53fd..327ce3d 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -384,7 +384,7 @@ impl<'a> Tokenizer<'a> {
     fn take_next_decimals_and_convert_to_u32(&mut self, start: Option<u32>) -> Option<u32> {
         (&mut self.iter)
             .cautious_map_while(|(_, ch)| ch.to_digit(10))
-            .fold(start.or(Some(0)), |acc, d| Some(acc?.checked_mul(10)? + d))
+            .fold(start.or(Some(0)), |acc, d| acc?.checked_mul(10)?.checked_add(d))
     }
 
     /// Returns the end position of the current token.
-- 
2.43.0


From c64b63985c68c46cb537cc741d4feececb660408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:46:44 +0000
Subject: [PATCH 04/18] fix: read only the digits that belong to a hexadecimal
 escape

The digit limit was ignored, so hexadecimal digits following an escape
were swallowed by it, and four digit escapes accepted any digit count.
---
 pango-lexer/src/regex/tokenizer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 327ce3d..4495e55 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -338,9 +338,13 @@ impl<'a> Tokenizer<'a> {
                         let hex1 = ch.to_digit(16)?;
 
                         // Note: The first character has already been consumed.
-                        let (_, character_code) =
+                        let (digit_amount, character_code) =
                             self.take_next_hexadecimals_and_convert_to_u32(4, Some(hex1))?;
 
+                        if digit_amount != 4 {
+                            return None;
+                        }
+
                         char::from_u32(character_code)
                     }
                 }
@@ -351,8 +355,8 @@ impl<'a> Tokenizer<'a> {
     }
 
     /// Returns the count of digits and converts them to [`u32`] including the
-    /// starting digit if present. Takes all hexadecimals it can take.
-    /// It only returns `Some` when the amount was the expected amount.
+    /// starting digit if present. Takes at most `max_digits` hexadecimals,
+    /// including the starting digit.
     fn take_next_hexadecimals_and_convert_to_u32(
         &mut self,
         max_digits: usize,
@@ -374,6 +378,7 @@ impl<'a> Tokenizer<'a> {
         self.iter
             .by_ref()
             .cautious_map_while(|(_, ch)| ch.to_digit(16))
+            .take(max_digits - digit_count as usize)
             .fold(Some((digit_count, start)), |acc, d| {
                 acc.map(|(digit_count, n)| (digit_count + 1, (n << 4) + d))
             })
-- 
2.43.0


From 87721b3ceaf69ae1081d41d26eb53f4494223699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:46 +0000
Subject: [PATCH 05/18] fix: end the span of an unfinished pattern token at the
 end of the pattern

The span of an escape or quantifier cut off by the end of the pattern
always ended at position one, possibly before its own start.
---
 pango-lexer/src/regex/tokenizer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 4495e55..c4ad1c5 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -10,7 +10,6 @@ use proptest_derive::Arbitrary;
 /// Regex tokenenizer.
 pub(super) struct Tokenizer<'a> {
     /// The input the tokenizer is going to tokenize.
-    #[allow(unused)]
     pub(super) input: &'a str,
     /// Iterator over the characters in the input (as defined in the rust `char`
     /// type), along with their position in the input.
@@ -399,7 +398,8 @@ impl<'a> Tokenizer<'a> {
     fn get_token_end_cursor_pos(&mut self) -> usize {
         match self.iter.current() {
             Some((cursor_pos, _)) => cursor_pos + 1,
-            None => 1,
+            // The token ended because the input did.
+            None => self.input.chars().count(),
         }
     }
 }
-- 
2.43.0


From 8a69954243d3515ac50510de2e6f6a20ea39bccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:49:52 +0000
Subject: [PATCH 06/18] fix: report pattern errors at the unexpected token

The closing parenthesis, closing bracket and range end were consumed
before being checked, so the error pointed one token too far or, at the
end of the pattern, to its start.
---
 pango-lexer/src/regex/parser.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pango-lexer/src/regex/parser.rs b/pango-lexer/src/regex/parser.rs
index f377d02..c60c051 100644
--- a/pango-lexer/src/regex/parser.rs
+++ b/pango-lexer/src/regex/parser.rs
@@ -207,7 +207,7 @@ impl<'a> Parser<'a> {
 
         // RIGHT_PAREN
         if !matches!(
-            self.tokens.next(),
+            self.tokens.peek(),
             Some(Token {
                 pos: _,
                 kind: TokenKind::Operator(OperatorKind::RightParen)
@@ -218,6 +218,7 @@ impl<'a> Parser<'a> {
                 pos: self.get_current_token_position(),
             }]));
         }
+        self.tokens.next();
 
         // QUANTIFIER
         let quantifier = match self.tokens.peek().copied() {
@@ -336,11 +337,13 @@ impl<'a> Parser<'a> {
             };
         }
 
-        match self.tokens.next() {
+        match self.tokens.peek() {
             Some(Token {
                 pos: _,
                 kind: TokenKind::Operator(OperatorKind::RightBracket),
-            }) => (),
+            }) => {
+                self.tokens.next();
+            }
             _ => {
                 return Err(W(vec![ParseError {
                     kind: ParseErrorKind::RightBracket,
@@ -373,11 +376,14 @@ impl<'a> Parser<'a> {
                     {
                         self.tokens.next();
 
-                        match self.tokens.next() {
+                        match self.tokens.peek().copied() {
                             Some(Token {
                                 pos: _,
                                 kind: Match(end),
-                            }) => ast::GroupedLiteralKind::Range(start, end),
+                            }) => {
+                                self.tokens.next();
+                                ast::GroupedLiteralKind::Range(start, end)
+                            }
                             _ => {
                                 return Err(W(vec![ParseError {
                                     kind: ParseErrorKind::Match,
-- 
2.43.0


From 8a2aec253aaa30a5129f69232a46e3cbcfe5b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:40 +0000
Subject: [PATCH 07/18] fix: count quantifier iterations from the first one on

The simulation started from a static closure without counters, so the
first iteration of an outer quantifier was not counted when its body
started with another quantifier. Counters were also kept for states
without a quantifier and never bounded, and equal runs were kept more
than once, which made the number of runs explode.
---
 pango-lexer/src/fsm/nfa/model.rs   | 55 +++++----------------------
 pango-lexer/src/fsm/nfa/sim.rs     | 60 ++++++++++++++++++------------
 pango-lexer/src/regex/tokenizer.rs | 13 +++++++
 3 files changed, 60 insertions(+), 68 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/model.rs b/pango-lexer/src/fsm/nfa/model.rs
index f0bf32b..e3e7f6b 100644
--- a/pango-lexer/src/fsm/nfa/model.rs
+++ b/pango-lexer/src/fsm/nfa/model.rs
@@ -1,6 +1,6 @@
 use super::StateId;
 use crate::regex::{ast, tokenizer::QuantifierKind};
-use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 // TODO: Clean up expects and panics to be `Option` and `Result` types.
 
@@ -76,50 +76,6 @@ impl Nfa {
     pub(super) fn get_final_states(&self) -> impl Iterator<Item = &State> + '_ {
         self.states.iter().filter(|s| s.fin)
     }
-
-    /// Returns an iterator over references to all states in the static epsilon
-    /// closure of the given state.
-    ///
-    /// This implementation of the NFA uses quantified transitions which can
-    /// only be taken when the state has been visited 'x' amount of times.
-    /// This is useful to prevent the exponential growth of the NFA when
-    /// compiling complex regex quantifiers. However, this means that state
-    /// counting has to be done at 'run-time' of the NFA. Information which is
-    /// not known to the [`NfaModel`](self::Nfa). Instaid a state is always
-    /// assumed to be visited 0 times, when trying quantified transitions.
-    pub(super) fn eps_closure(&self, state_id: StateId) -> impl Iterator<Item = StateId> {
-        let mut not_visited = VecDeque::from([state_id]);
-        let mut result = BTreeSet::from([state_id]);
-
-        while let Some(state_id) = not_visited.pop_front() {
-            let State { transitions, .. } = self.get_state(state_id);
-
-            let new_state_ids = transitions
-                .iter()
-                .filter_map(|(input, states)| -> Option<Box<dyn Iterator<Item = _>>> {
-                    match input {
-                        Input::Literal(_) => None,
-                        Input::Eps => Some(Box::new(states.iter())),
-                        Input::Quantified(quantifier) => {
-                            if quantifier.is_satisfied(0) {
-                                Some(Box::new(states.iter()))
-                            } else {
-                                None
-                            }
-                        }
-                    }
-                })
-                .flatten();
-
-            for state_id in new_state_ids {
-                if result.insert(*state_id) {
-                    not_visited.push_back(*state_id)
-                }
-            }
-        }
-
-        result.into_iter()
-    }
 }
 
 impl Input {
@@ -149,6 +105,15 @@ impl State {
     fn with_id(id: StateId, fin: bool) -> Self {
         Self::new(id, fin, Transitions::new())
     }
+
+    /// Returns the quantifier that decides when the state can be left, if there
+    /// is one.
+    pub(super) fn quantifier(&self) -> Option<QuantifierKind> {
+        self.transitions.keys().find_map(|input| match input {
+            Input::Quantified(quantifier) => Some(*quantifier),
+            _ => None,
+        })
+    }
 }
 
 /// Builder struct for the [`Nfa`].
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index dd08984..c9ec4c9 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -5,6 +5,7 @@ use super::{
     },
     model::{Input, Nfa, State, StateCounters},
 };
+use crate::regex::tokenizer::QuantifierKind;
 
 use std::{
     borrow::Cow,
@@ -19,8 +20,8 @@ use std::{
 pub struct NfaSimulator<'a> {
     /// [`Nfa`] we are simulating.
     nfa: Cow<'a, Nfa>,
-    /// A list of runs the simulator is currently in.
-    runs: Vec<Run>,
+    /// The set of runs the simulator is currently in.
+    runs: HashSet<Run>,
 }
 
 /// A single decision branch in the simulation of the [`Nfa`].
@@ -40,14 +41,20 @@ impl Run {
     }
 
     /// Updates the [`Run`] to the new state and updates the needed state
-    /// counters.
-    fn take_transition(mut self, new_state_id: StateId, quantified: bool) -> Self {
-        let count = self.state_counters.entry(self.state_id).or_insert(0);
-        if quantified {
-            // Reset the state count if quantified transition is used
-            *count = 0;
-        } else {
-            *count += 1;
+    /// counters. Only visits of states with a `quantifier` are counted.
+    fn take_transition(
+        mut self,
+        new_state_id: StateId,
+        quantifier: Option<QuantifierKind>,
+        quantified: bool,
+    ) -> Self {
+        // The count starts over if the quantified transition is used.
+        let count = self.state_counters.remove(&self.state_id).unwrap_or(0);
+        if let (Some(quantifier), false) = (quantifier, quantified) {
+            let count = (count + 1).min(quantifier.count_limit());
+            if count > 0 {
+                self.state_counters.insert(self.state_id, count);
+            }
         }
         self.state_id = new_state_id;
 
@@ -58,12 +65,15 @@ impl Run {
 impl<'a> NfaSimulator<'a> {
     /// Creates a new [`NfaSimulator`].
     fn new(nfa: Cow<'a, Nfa>) -> Self {
-        let runs = nfa
-            .eps_closure(nfa.start_state)
-            .map(Run::new)
-            .collect::<Vec<_>>();
-
-        Self { nfa, runs }
+        let mut simulator = Self {
+            nfa,
+            runs: HashSet::new(),
+        };
+        simulator.runs = simulator
+            .eps_closure(Run::new(simulator.nfa.start_state))
+            .collect();
+
+        simulator
     }
 
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
@@ -79,7 +89,7 @@ impl<'a> NfaSimulator<'a> {
                 state_counters,
             } = &run;
 
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
 
             let transitions_taken = transitions
                 .iter()
@@ -99,9 +109,10 @@ impl<'a> NfaSimulator<'a> {
                 })
                 .flatten();
 
-            let new_runs = transitions_taken
-                .into_iter()
-                .map(|(new_state, quantified)| run.clone().take_transition(*new_state, quantified));
+            let new_runs = transitions_taken.into_iter().map(|(new_state, quantified)| {
+                run.clone()
+                    .take_transition(*new_state, state.quantifier(), quantified)
+            });
 
             for new_run in new_runs {
                 if result.insert(new_run.clone()) {
@@ -134,10 +145,10 @@ impl Simulate for NfaSimulator<'_> {
     }
 
     fn feed(&mut self, input: char) -> bool {
-        let mut updated_runs = Vec::new();
+        let mut updated_runs = HashSet::new();
 
         for run @ Run { state_id, .. } in self.runs.iter() {
-            let State { transitions, .. } = self.nfa.get_state(*state_id);
+            let state @ State { transitions, .. } = self.nfa.get_state(*state_id);
 
             // Check for every transition if the input can make that transition.
 
@@ -161,7 +172,10 @@ impl Simulate for NfaSimulator<'_> {
 
             let new_runs = new_state_ids
                 .into_iter()
-                .map(|new_state_id| run.clone().take_transition(*new_state_id, false))
+                .map(|new_state_id| {
+                    run.clone()
+                        .take_transition(*new_state_id, state.quantifier(), false)
+                })
                 .flat_map(|new_run| self.eps_closure(new_run));
 
             updated_runs.extend(new_runs);
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index c4ad1c5..8911c23 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -418,6 +418,19 @@ impl QuantifierKind {
             }
         }
     }
+
+    /// Returns the count from which on counting further makes no difference.
+    pub(crate) fn count_limit(&self) -> usize {
+        match self {
+            QuantifierKind::Asterisk => 0,
+            QuantifierKind::Plus => 1,
+            QuantifierKind::QuestionMark => 2,
+            QuantifierKind::Range(QuantifierRangeKind::Min(min)) => *min as usize,
+            QuantifierKind::Range(
+                QuantifierRangeKind::Max(max) | QuantifierRangeKind::Range(_, max),
+            ) => (*max as usize).saturating_add(1),
+        }
+    }
 }
 
 impl ClassKind {
-- 
2.43.0


From 309425750454090f681fd02152ca429353a1bac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:23 +0000
Subject: [PATCH 08/18] fix: do not iterate quantifiers without consuming input

Repeating a group that can match the empty string, such as (a*)*, kept
producing new runs forever. Iterations that consume nothing are now left
out, and the lower bound of such a repetition is dropped as it can always
be reached with empty iterations.
---
 pango-lexer/src/fsm/nfa/compiler.rs |  7 ++++--
 pango-lexer/src/fsm/nfa/sim.rs      | 38 ++++++++++++++++++++---------
 pango-lexer/src/regex/ast.rs        | 29 ++++++++++++++++++++++
 pango-lexer/src/regex/tokenizer.rs  | 17 +++++++++++++
 4 files changed, 78 insertions(+), 13 deletions(-)

diff --git a/pango-lexer/src/fsm/nfa/compiler.rs b/pango-lexer/src/fsm/nfa/compiler.rs
index f518423..6b949e0 100644
--- a/pango-lexer/src/fsm/nfa/compiler.rs
+++ b/pango-lexer/src/fsm/nfa/compiler.rs
@@ -132,8 +132,11 @@ impl Compiler {
             ExprKind::Group(expr, quantifier) => {
                 let (start, end) = match quantifier {
                     Some(quantifier) => {
-                        let quantifier_state =
-                            self.insert_quantifier_state(*quantifier, start, end);
+                        let quantifier_state = self.insert_quantifier_state(
+                            expr.effective_quantifier(*quantifier),
+                            start,
+                            end,
+                        );
                         (quantifier_state, quantifier_state)
                     }
                     None => (start, end),
diff --git a/pango-lexer/src/fsm/nfa/sim.rs b/pango-lexer/src/fsm/nfa/sim.rs
index c9ec4c9..0ce01c0 100644
--- a/pango-lexer/src/fsm/nfa/sim.rs
+++ b/pango-lexer/src/fsm/nfa/sim.rs
@@ -79,11 +79,17 @@ impl<'a> NfaSimulator<'a> {
     /// Returns an iterator over the runtime epsilon closure. This is an epsilon
     /// closure of [`Run`]s, NOT of [`State`]s. Because runs contain state
     /// counters, this will also take quantified transitions.
+    ///
+    /// Iterations of a quantifier that would not consume any input are left
+    /// out. The compiler makes sure that they are never needed.
     fn eps_closure(&self, run: Run) -> impl Iterator<Item = Run> {
-        let mut not_visited = VecDeque::from([run.clone()]);
-        let mut result = HashSet::from([run]);
+        // Next to the run, keep track of the quantified states that started an
+        // iteration within this closure.
+        let start = (run, BTreeSet::new());
+        let mut not_visited = VecDeque::from([start.clone()]);
+        let mut result = HashSet::from([start]);
 
-        while let Some(run) = not_visited.pop_front() {
+        while let Some((run, started)) = not_visited.pop_front() {
             let Run {
                 state_id,
                 state_counters,
@@ -109,19 +115,29 @@ impl<'a> NfaSimulator<'a> {
                 })
                 .flatten();
 
-            let new_runs = transitions_taken.into_iter().map(|(new_state, quantified)| {
-                run.clone()
-                    .take_transition(*new_state, state.quantifier(), quantified)
-            });
+            for (new_state, quantified) in transitions_taken {
+                let mut started = started.clone();
+                if state.quantifier().is_some() && !quantified {
+                    started.insert(*state_id);
+                }
+
+                if started.contains(new_state) {
+                    // The iteration did not consume any input.
+                    continue;
+                }
+
+                let new_run =
+                    run.clone()
+                        .take_transition(*new_state, state.quantifier(), quantified);
+                let new = (new_run, started);
 
-            for new_run in new_runs {
-                if result.insert(new_run.clone()) {
-                    not_visited.push_back(new_run);
+                if result.insert(new.clone()) {
+                    not_visited.push_back(new);
                 }
             }
         }
 
-        result.into_iter()
+        result.into_iter().map(|(run, _)| run)
     }
 }
 
diff --git a/pango-lexer/src/regex/ast.rs b/pango-lexer/src/regex/ast.rs
index e33e9aa..64a2ea9 100644
--- a/pango-lexer/src/regex/ast.rs
+++ b/pango-lexer/src/regex/ast.rs
@@ -60,6 +60,35 @@ pub(crate) enum GroupedLiteralKind {
     Range(char, char),
 }
 
+impl ExprKind {
+    /// Whether the expression matches the empty string.
+    pub(crate) fn is_nullable(&self) -> bool {
+        match self {
+            ExprKind::Concat(exprs) => exprs.iter().all(ExprKind::is_nullable),
+            ExprKind::Empty => true,
+            ExprKind::Alt(lhs, rhs) => lhs.is_nullable() || rhs.is_nullable(),
+            ExprKind::Lit(_, quantifier) => quantifier.map_or(false, |q| q.is_satisfied(0)),
+            ExprKind::Group(expr, None) => expr.is_nullable(),
+            ExprKind::Group(expr, Some(quantifier)) => {
+                expr.effective_quantifier(*quantifier).is_satisfied(0)
+            }
+        }
+    }
+
+    /// Returns the quantifier to use when repeating the expression without
+    /// ever matching the empty string in an iteration.
+    pub(crate) fn effective_quantifier(
+        &self,
+        quantifier: tokenizer::QuantifierKind,
+    ) -> tokenizer::QuantifierKind {
+        if self.is_nullable() {
+            quantifier.without_min()
+        } else {
+            quantifier
+        }
+    }
+}
+
 impl LiteralKind {
     /// Whether `c` is an element of represented alphabet subset.
     pub(crate) fn contains(&self, c: char) -> bool {
diff --git a/pango-lexer/src/regex/tokenizer.rs b/pango-lexer/src/regex/tokenizer.rs
index 8911c23..56c8e5c 100644
--- a/pango-lexer/src/regex/tokenizer.rs
+++ b/pango-lexer/src/regex/tokenizer.rs
@@ -419,6 +419,23 @@ impl QuantifierKind {
         }
     }
 
+    /// Returns the quantifier without its lower bound. A quantifier that can
+    /// never be satisfied stays that way.
+    pub(crate) fn without_min(self) -> Self {
+        match self {
+            QuantifierKind::Asterisk | QuantifierKind::Plus => QuantifierKind::Asterisk,
+            QuantifierKind::QuestionMark => QuantifierKind::QuestionMark,
+            QuantifierKind::Range(QuantifierRangeKind::Min(_)) => QuantifierKind::Asterisk,
+            QuantifierKind::Range(QuantifierRangeKind::Max(max)) => {
+                QuantifierKind::Range(QuantifierRangeKind::Range(0, max))
+            }
+            QuantifierKind::Range(QuantifierRangeKind::Range(min, max)) => {
+                let min = if min <= max { 0 } else { min };
+                QuantifierKind::Range(QuantifierRangeKind::Range(min, max))
+            }
+        }
+    }
+
     /// Returns the count from which on counting further makes no difference.
     pub(crate) fn count_limit(&self) -> usize {
         match self {
-- 
2.43.0


From 1f4733194d8975826ee125272071ba5448ca6158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:29 +0000
Subject: [PATCH 09/18] fix: yield the longest token when the input ends inside
 a longer one

A token that was already accepted got lost if the input ended while a
longer token was still incomplete.
---
 pango-lexer/src/lexer/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 110072f..8d37c17 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -110,13 +110,9 @@ where
             }
         }
 
-        if sim.is_accepting() {
-            token_kind.map(|token_kind| {
-                Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-            })
-        } else {
-            None
-        }
+        // The input ended, so the last accepted token is the longest one.
+        token_kind
+            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
     }
 }
 
-- 
2.43.0


From 6bf11462150dceb95b5f5a9608068c39ad5162e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:35 +0000
Subject: [PATCH 10/18] fix: keep characters that were given back more than
 once

Consuming a token replaced the characters that were given back before
but not read again yet, dropping them from the input.
---
 pango-lexer/src/lexer/input.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 668df14..0545e5b 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,7 +74,11 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        self.prev_characters_iter = std::mem::take(&mut self.token_suffix).into_iter();
+        let mut characters = std::mem::take(&mut self.token_suffix);
+        // Characters given back earlier that were not needed for this token come
+        // after the suffix.
+        characters.extend(&mut self.prev_characters_iter);
+        self.prev_characters_iter = characters.into_iter();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
-- 
2.43.0


From e79ef76e08329c17a7f8d67679f458e0a6c8ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:01 +0000
Subject: [PATCH 11/18] fix: stay stopped after text that matches no token

The characters read while looking for a token were added to the next
token, whose text and positions no longer fit the input.
---
 pango-lexer/src/lexer/input.rs | 15 ++++++++++-----
 pango-lexer/src/lexer/mod.rs   | 20 +++++++++++++-------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 0545e5b..4145fa0 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -74,11 +74,7 @@ impl<'a> InputIter<'a> {
     /// Takes the currently built/accepted token from the iterator and moves the
     /// not accepted part of the input so it is used for the next token.
     pub(super) fn consume_token(&mut self) -> InputIterToken {
-        let mut characters = std::mem::take(&mut self.token_suffix);
-        // Characters given back earlier that were not needed for this token come
-        // after the suffix.
-        characters.extend(&mut self.prev_characters_iter);
-        self.prev_characters_iter = characters.into_iter();
+        self.give_back_suffix();
         let new_token = InputIterToken {
             // OPTIMIZATION: Assume that the string length of the new token will at least be half
             // of the previous token.
@@ -90,6 +86,15 @@ impl<'a> InputIter<'a> {
         std::mem::replace(&mut self.current_token, new_token)
     }
 
+    /// Moves the not accepted part of the input so it is used again.
+    pub(super) fn give_back_suffix(&mut self) {
+        let mut characters = std::mem::take(&mut self.token_suffix);
+        // Characters given back earlier that were not needed for this token come
+        // after the suffix.
+        characters.extend(&mut self.prev_characters_iter);
+        self.prev_characters_iter = characters.into_iter();
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 8d37c17..3826f97 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -72,10 +72,7 @@ where
         while let Some(ch) = self.iter.next() {
             if !sim.can_feed(ch) {
                 // the current token is the longest token we can 'munch'
-
-                return token_kind.map(|token_kind| {
-                    Token::from_input_iter_token(self.iter.consume_token(), token_kind)
-                });
+                break;
             }
 
             if sim.feed(ch) {
@@ -110,9 +107,18 @@ where
             }
         }
 
-        // The input ended, so the last accepted token is the longest one.
-        token_kind
-            .map(|token_kind| Token::from_input_iter_token(self.iter.consume_token(), token_kind))
+        // The last accepted token is the longest one, also if the input ended.
+        match token_kind {
+            Some(token_kind) => Some(Token::from_input_iter_token(
+                self.iter.consume_token(),
+                token_kind,
+            )),
+            None => {
+                // No token starts here, so stay at this position.
+                self.iter.give_back_suffix();
+                None
+            }
+        }
     }
 }
 
-- 
2.43.0


From e13aa4c358ff689791581bd6769880d8b0b6aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:12 +0000
Subject: [PATCH 12/18] fix: create only one state per item set

The state being processed and the states waiting to be processed were
not considered when looking for an existing state, so equal states were
created more than once.
---
 pango-parser/src/cfsm/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pango-parser/src/cfsm/mod.rs b/pango-parser/src/cfsm/mod.rs
index 66bd8da..bda67b3 100644
--- a/pango-parser/src/cfsm/mod.rs
+++ b/pango-parser/src/cfsm/mod.rs
@@ -76,12 +76,12 @@ where
             // try all symbols with a bullet reading them
 
             let State {
-                ref item_set,
+                id: current_id,
+                item_set: ref current_item_set,
                 ref mut transitions,
-                ..
             } = state;
 
-            for (symbol, item_set) in item_set.iter_by_cursor_symbol() {
+            for (symbol, item_set) in current_item_set.iter_by_cursor_symbol() {
                 // advance the items which read the same symbol
 
                 let new_item_set = item_set
@@ -99,12 +99,19 @@ where
                 let item_set = ItemSet::from((new_item_set, builder.get_grammar()));
 
                 let new_state_id = {
-                    match builder
-                        .get_states_mut()
-                        .iter()
-                        .find(|s| s.has_item_set(&item_set))
-                    {
-                        Some(State { id, .. }) => *id,
+                    let existing_id = if *current_item_set == item_set {
+                        Some(current_id)
+                    } else {
+                        builder
+                            .get_states_mut()
+                            .iter()
+                            .chain(pending_states.iter())
+                            .find(|s| s.has_item_set(&item_set))
+                            .map(|s| s.id)
+                    };
+
+                    match existing_id {
+                        Some(id) => id,
                         None => {
                             let state = State::new(state_id_generator.next(), item_set);
                             let state_id = state.id;
-- 
2.43.0


From a4756e72dd346e706265719d7888601ca3751f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:55:19 +0000
Subject: [PATCH 13/18] fix: accept grammars with items shifting the same
 terminal

Two items of a state that shift the same terminal result in the same
action, which was reported as a conflict.
---
 pango-parser/src/parser/table.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index 0b14ae4..b341abc 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -135,6 +135,7 @@ where
 
 impl<V, T> ParseTable<V, T>
 where
+    V: Copy + Eq,
     T: TerminalEq + TerminalHash,
 {
     fn insert_action(
@@ -150,16 +151,13 @@ where
         let state = table
             .get_mut(state)
             .expect("state should exist as the table has just been resized");
-        let mut occupied = true;
-        let _entry = state.entry(terminal).or_insert_with(|| {
-            occupied = false;
-            action
-        });
+        // multiple items can result in the same action
+        let entry = state.entry(terminal).or_insert(action);
 
         // TODO: Return type of conflict
-        match occupied {
-            true => Err(()),
-            false => Ok(()),
+        match *entry == action {
+            true => Ok(()),
+            false => Err(()),
         }
     }
 }
-- 
2.43.0


From df1fd820178cf77086b03d2f1683c34dd0657575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:04 +0000
Subject: [PATCH 14/18] fix: do not pop symbols for epsilons when reducing

Epsilons are never pushed on the stack, but were counted when popping
the symbols of a body.
---
 pango-parser/src/cfsm/item.rs    | 9 +++++++++
 pango-parser/src/parser/table.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pango-parser/src/cfsm/item.rs b/pango-parser/src/cfsm/item.rs
index 1e0d57b..f605c1b 100644
--- a/pango-parser/src/cfsm/item.rs
+++ b/pango-parser/src/cfsm/item.rs
@@ -33,6 +33,15 @@ impl<V, T> ItemBody<V, T> {
         unsafe { self.body.as_ref() }
     }
 
+    /// Returns the amount of [`Symbol`]s in the body that are read by the
+    /// bullet/cursor, so without [`Epsilon`](Symbol::Epsilon)s.
+    pub(crate) fn symbol_count(&self) -> usize {
+        self.get_body()
+            .iter()
+            .filter(|s| !matches!(s, Symbol::Epsilon))
+            .count()
+    }
+
     /// Returns the [`Symbol`] the bullet/cursor is currently reading.
     pub(crate) fn get_cursor_symbol(&self) -> Option<&Symbol<V, T>> {
         self.get_body().get(self.cursor)
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index b341abc..e689271 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -99,7 +99,7 @@ where
                                 t,
                                 ActionKind::Reduce {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount: body.symbol_count(),
                                 },
                             )?;
                         }
@@ -113,7 +113,7 @@ where
                                 Terminal::Eof,
                                 ActionKind::Accept {
                                     variable: head,
-                                    amount: body.get_body().len(),
+                                    amount: body.symbol_count(),
                                 },
                             )?;
                         }
-- 
2.43.0


From 1658f1ee40e502676cc3e944a9662338c69e3941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:12 +0000
Subject: [PATCH 15/18] fix: reduce at the end of the input and accept only
 complete sentences

The end of the input was missing from the follow sets, so rules ending a
sentence were not reduced, and rules of a start variable that occurs in
no body were left out altogether. Completing a nested start variable at
the end of the input accepted an incomplete sentence.
---
 pango-parser/src/grammar.rs      | 32 +++++++++++++++++++++++++++
 pango-parser/src/parser/slr.rs   | 38 ++++++++++++++++----------------
 pango-parser/src/parser/table.rs | 26 +++++++++++++---------
 3 files changed, 67 insertions(+), 29 deletions(-)

diff --git a/pango-parser/src/grammar.rs b/pango-parser/src/grammar.rs
index 5f877a2..fff431f 100644
--- a/pango-parser/src/grammar.rs
+++ b/pango-parser/src/grammar.rs
@@ -373,6 +373,38 @@ where
 
         result
     }
+
+    /// Returns the set of variables that can be followed by the end of the
+    /// input.
+    pub(super) fn eof_follow_set(&self) -> HashSet<V> {
+        let mut result = HashSet::from([self.start_variable]);
+        let mut pending_variables = VecDeque::from([self.start_variable]);
+
+        while let Some(head) = pending_variables.pop_front() {
+            let bodies = self.get_rule_bodies(head).into_iter().flatten();
+
+            for body in bodies {
+                // go through the body in reverse as long as what comes after can be empty
+                for symbol in body.iter().rev() {
+                    match symbol {
+                        Symbol::Variable(variable) => {
+                            if result.insert(*variable) {
+                                pending_variables.push_back(*variable);
+                            }
+
+                            if !self.first(*variable).contains(&Symbol::Epsilon) {
+                                break;
+                            }
+                        }
+                        Symbol::Terminal(_) => break,
+                        Symbol::Epsilon => (),
+                    }
+                }
+            }
+        }
+
+        result
+    }
 }
 
 impl<V, T> Grammar<V, T>
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index c828220..81dc749 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -110,7 +110,6 @@ where
             return Err(());
         };
 
-        let mut accept = false;
         let parse_node = match action_kind {
             ActionKind::Shift { dest_state } => ParseNode {
                 node: Node::from_symbol(Symbol::Terminal(
@@ -125,6 +124,24 @@ where
                     .rev()
                     .collect();
 
+                // all input has been reduced to the start variable
+                let accept = token.is_none()
+                    && stack.len() == 1
+                    && *variable == self.table.get_grammar().get_start_variable();
+
+                if accept {
+                    let parse_node = ParseNode {
+                        node: Node {
+                            symbol: Symbol::Variable(*variable),
+                            children,
+                        },
+                        // State does not matter here as the input is accepted
+                        state: StateId::default(),
+                    };
+
+                    return Ok((parse_node, true));
+                }
+
                 let goto = self
                     .table
                     .goto
@@ -148,26 +165,9 @@ where
                     state: *new_state,
                 }
             }
-            ActionKind::Accept { variable, amount } => {
-                let children = stack
-                    .drain((stack.len() - amount)..)
-                    .map(|parse_node| parse_node.node)
-                    .rev()
-                    .collect();
-
-                accept = true;
-                ParseNode {
-                    node: Node {
-                        symbol: Symbol::Variable(*variable),
-                        children,
-                    },
-                    // State does not matter here as the action is to accept
-                    state: StateId::default(),
-                }
-            }
         };
 
-        Ok((parse_node, accept))
+        Ok((parse_node, false))
     }
 }
 
diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index e689271..c7857fc 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -20,7 +20,6 @@ type GotoTable<V> = Vec<HashMap<V, StateId>>;
 pub enum ActionKind<V> {
     Shift { dest_state: StateId },
     Reduce { variable: V, amount: usize },
-    Accept { variable: V, amount: usize },
 }
 
 pub(super) enum Terminal<T> {
@@ -48,6 +47,8 @@ where
         let grammar = cfsm.get_grammar();
 
         let follow_set = grammar.follow_set();
+        let start_variable = grammar.get_start_variable();
+        let eof_follow_set = grammar.eof_follow_set();
 
         let (mut action, mut goto) = (ActionTable::new(), GotoTable::new());
 
@@ -80,11 +81,7 @@ where
                     }
                     None => {
                         // body of the form `S -> w •`
-                        let Some(follow) = follow_set.get(&head) else {
-                            continue;
-                        };
-
-                        for s in follow.iter() {
+                        for s in follow_set.get(&head).into_iter().flatten() {
                             let t = match s {
                                 Symbol::Terminal(t) => Terminal::T(t.into()),
                                 Symbol::Variable(_) => {
@@ -104,14 +101,14 @@ where
                             )?;
                         }
 
-                        if head == grammar.get_start_variable() {
-                            // reduce once to the start variable on a lookahead of eof, then
-                            // accept
+                        if eof_follow_set.contains(&head) {
+                            // reduce on a lookahead of eof, and accept once everything has
+                            // been reduced to the start variable
                             Self::insert_action(
                                 &mut action,
                                 *state_id,
                                 Terminal::Eof,
-                                ActionKind::Accept {
+                                ActionKind::Reduce {
                                     variable: head,
                                     amount: body.symbol_count(),
                                 },
@@ -125,6 +122,15 @@ where
             }
         }
 
+        // Once everything has been reduced to the start variable, the end of the
+        // input has to be accepted, so it can not be used for another reduction.
+        let start_goto = goto.first().and_then(|g| g.get(&start_variable));
+        if let Some(actions) = start_goto.and_then(|state_id| action.get(*state_id)) {
+            if actions.contains_key(&Terminal::Eof) {
+                return Err(());
+            }
+        }
+
         Ok(Self {
             action,
             goto,
-- 
2.43.0


From b8df60a14ead62fa9e4aa2756bb6d8e2bb1eaa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:19 +0000
Subject: [PATCH 16/18] fix: create table rows for states without actions or
 gotos

The last states of the automaton had no row in a table if they had no
entries, which made parsing panic.
---
 pango-parser/src/parser/table.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pango-parser/src/parser/table.rs b/pango-parser/src/parser/table.rs
index c7857fc..2142e95 100644
--- a/pango-parser/src/parser/table.rs
+++ b/pango-parser/src/parser/table.rs
@@ -122,6 +122,11 @@ where
             }
         }
 
+        // not every state has an action or goto
+        let state_count = cfsm.iter().count();
+        action.resize_with(state_count, Default::default);
+        goto.resize_with(state_count, Default::default);
+
         // Once everything has been reduced to the start variable, the end of the
         // input has to be accepted, so it can not be used for another reduction.
         let start_goto = goto.first().and_then(|g| g.get(&start_variable));
-- 
2.43.0


From 0eaac3ce1a4268ab990e00d26c8527d08ca4c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:28 +0000
Subject: [PATCH 17/18] fix: do not parse input that can not be tokenized
 completely

The parser treated text that matches no token as the end of the input
and accepted what came before it.
---
 pango-lexer/src/lexer/input.rs | 7 +++++++
 pango-lexer/src/lexer/mod.rs   | 7 +++++++
 pango-parser/src/parser/slr.rs | 5 +++++
 3 files changed, 19 insertions(+)

diff --git a/pango-lexer/src/lexer/input.rs b/pango-lexer/src/lexer/input.rs
index 4145fa0..e304212 100644
--- a/pango-lexer/src/lexer/input.rs
+++ b/pango-lexer/src/lexer/input.rs
@@ -95,6 +95,13 @@ impl<'a> InputIter<'a> {
         self.prev_characters_iter = characters.into_iter();
     }
 
+    /// Whether all input has been used for tokens.
+    pub(super) fn is_at_end(&self) -> bool {
+        self.token_suffix.is_empty()
+            && self.prev_characters_iter.len() == 0
+            && self.iter.clone().next().is_none()
+    }
+
     /// Returns a read-only reference to the [`InputIterToken`] being built.
     pub(super) fn get_token(&self) -> &InputIterToken {
         &self.current_token
diff --git a/pango-lexer/src/lexer/mod.rs b/pango-lexer/src/lexer/mod.rs
index 3826f97..b701122 100644
--- a/pango-lexer/src/lexer/mod.rs
+++ b/pango-lexer/src/lexer/mod.rs
@@ -122,6 +122,13 @@ where
     }
 }
 
+impl<TokenKind, Fsm: Simulatable> Lexer<'_, TokenKind, Fsm> {
+    /// Whether all input has been tokenized.
+    pub fn is_at_end(&self) -> bool {
+        self.iter.is_at_end()
+    }
+}
+
 impl<TokenKind> Lexer<'_, TokenKind, Nfa> {
     /// Creates a `LexerGenerator`.
     pub fn builder() -> LexerGenerator<TokenKind> {
diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index 81dc749..ee78666 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -70,6 +70,11 @@ where
             stack.push(parse_node);
         }
 
+        if !input.is_at_end() {
+            // the remaining input is not a token
+            return Err(());
+        }
+
         // eof
         next_token = None;
         while let Ok((parse_node, accept)) =
-- 
2.43.0


From 6cbff4280de31a96e7552cb12450e1efe84c0824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:38:02 +0000
Subject: [PATCH 18/18] fix: stop parsing when reductions repeat without
 reading input

---
 pango-parser/src/parser/slr.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pango-parser/src/parser/slr.rs b/pango-parser/src/parser/slr.rs
index ee78666..9fe93e1 100644
--- a/pango-parser/src/parser/slr.rs
+++ b/pango-parser/src/parser/slr.rs
@@ -55,6 +55,9 @@ where
             state: current_state,
         }]);
 
+        // positions and states that were on top of the stack since the last shift
+        let mut visited = Vec::from([(0, current_state)]);
+
         while let Some(token) = next_token.or_else(|| input.next()) {
             next_token = Some(token);
             let (parse_node, accept) =
@@ -67,6 +70,9 @@ where
             };
 
             current_state = parse_node.state;
+            if Self::repeats(&mut visited, &stack, &parse_node) {
+                return Err(());
+            }
             stack.push(parse_node);
         }
 
@@ -87,6 +93,9 @@ where
             };
 
             current_state = parse_node.state;
+            if Self::repeats(&mut visited, &stack, &parse_node) {
+                return Err(());
+            }
             stack.push(parse_node);
         }
 
@@ -94,6 +103,27 @@ where
         Err(())
     }
 
+    /// Whether pushing the node leads to the same reductions over and over
+    /// again without reading any more input.
+    fn repeats(
+        visited: &mut Vec<(usize, StateId)>,
+        stack: &[ParseNode<V, T>],
+        parse_node: &ParseNode<V, T>,
+    ) -> bool {
+        let top = (stack.len(), parse_node.state);
+
+        if let Symbol::Terminal(_) = parse_node.node.symbol {
+            visited.clear();
+        }
+        visited.retain(|(position, _)| *position <= top.0);
+
+        let repeats = visited.iter().any(|&(position, state)| {
+            state == top.1 && (position == top.0 || stack[position].state == state)
+        });
+        visited.push(top);
+        repeats
+    }
+
     fn handle_token(
         &self,
         token: &mut Option<Token<T>>,
-- 
2.43.0

