From f4ea833dbfc8453394129b8b31a24ff258c77291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:36 +0000
Subject: [PATCH 01/17] fix: set_line sets the line, not the column

---
 src/lexer_atn_simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 433324d..2144f87 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -117,7 +117,7 @@ impl ILexerATNSimulator for LexerATNSimulator {
     }
 
     fn set_line(&mut self, line: isize) {
-        self.current_pos.char_position_in_line.set(line)
+        self.current_pos.line.set(line)
     }
 
     fn consume<T: IntStream + ?Sized>(&self, _input: &mut T) {
-- 
2.43.0


From d5bd830687f604ecdaad21dc6fdfb6db635a09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:36 +0000
Subject: [PATCH 02/17] fix: a token set by a lexer action is returned instead
 of dropped

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 88fefcd..d0d3800 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -381,8 +381,8 @@ where
 
             if self.token.is_none() {
                 self.emit();
-                break;
             }
+            break;
         }
         self.input().release(_marker);
         self.token.take().unwrap()
-- 
2.43.0


From c0d32d18da654c942efbf94668e39b7ee60e4d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 03/17] fix: lexer DFA states are shared only when equal, not
 when their hashes collide

---
 src/lexer_atn_simulator.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 2144f87..63ce469 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -1,7 +1,6 @@
 //! Implementation of lexer automata(DFA)
 use std::cell::Cell;
 
-use std::ops::Deref;
 use std::rc::Rc;
 use std::sync::Arc;
 use std::usize;
@@ -691,19 +690,18 @@ impl LexerATNSimulator {
 
         let states = &mut dfa.states;
         let key = dfastate.default_hash();
-        let dfastate_index = *dfa
-            .states_map
-            .entry(key)
-            .or_insert_with(|| {
-                dfastate.state_number = states.deref().len();
-                dfastate.configs.set_read_only(true);
-                let i = dfastate.state_number;
-                //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
-                states.push(dfastate);
-                vec![i]
-            })
-            .first()
-            .unwrap();
+        let same_hash = dfa.states_map.entry(key).or_insert_with(Vec::new);
+        // equal hashes do not imply equal states
+        if let Some(&existing) = same_hash.iter().find(|&&it| states[it] == dfastate) {
+            return existing;
+        }
+
+        let dfastate_index = states.len();
+        dfastate.state_number = dfastate_index;
+        dfastate.configs.set_read_only(true);
+        //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
+        states.push(dfastate);
+        same_hash.push(dfastate_index);
 
         //println!("new DFA state {}", dfastate_index);
 
-- 
2.43.0


From a0a5769cd70d8b8f32ed1a0c43b88ff34df59ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 04/17] fix: a failed prediction also restores the input
 position and releases its marker

---
 src/parser_atn_simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9043c48..02965b6 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -226,13 +226,13 @@ impl ParserATNSimulator {
                 s0
             });
 
-            self.exec_atn(&mut local, s0)?
+            self.exec_atn(&mut local, s0)
         };
 
         local.input().seek(self.start_index.get());
         local.input().release(m);
         //        println!("result = {}", result);
-        Ok(result)
+        result
     }
 
     #[allow(non_snake_case)]
-- 
2.43.0


From 273b949220954229a7cbf54dc2119ed981466623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 05/17] fix: full-context prediction errors name the token that
 failed, not the first one

---
 src/parser_atn_simulator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 02965b6..6f19c2c 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -475,6 +475,7 @@ impl ParserATNSimulator {
             let reach = self.compute_reach_set(&prev, t, full_ctx, local);
             prev = match reach {
                 None => {
+                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                     local.input().seek(self.start_index.get());
                     let alt = self
                         .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
@@ -483,7 +484,7 @@ impl ParserATNSimulator {
                     if alt != INVALID_ALT {
                         return Ok(alt);
                     }
-                    return Err(self.no_viable_alt(local, &prev, self.start_index.get()));
+                    return Err(err);
                 }
                 Some(x) => x,
             };
-- 
2.43.0


From 547f9a7c48dce67769a0bf88359f405179beee66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 06/17] fix: IntervalSet merges every interval an added one
 reaches

---
 src/interval_set.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/interval_set.rs b/src/interval_set.rs
index 9707c1f..e86ed39 100644
--- a/src/interval_set.rs
+++ b/src/interval_set.rs
@@ -130,12 +130,12 @@ impl IntervalSet {
 
             if added.adjacent(r) || !added.disjoint(r) {
                 // next to each other, make a single larger interval
-                let bigger = added.union(r);
+                let mut bigger = added.union(r);
                 *r = bigger;
                 // make sure we didn't just create an interval that
                 // should be merged with next interval in list
+                i += 1;
                 loop {
-                    i += 1;
                     let next = match self.intervals.get(i) {
                         Some(v) => v,
                         None => break,
@@ -145,7 +145,8 @@ impl IntervalSet {
                     }
 
                     // if we bump up against or overlap next, merge
-                    self.intervals[i - 1] = bigger.union(next); // set to 3 merged ones
+                    bigger = bigger.union(next);
+                    self.intervals[i - 1] = bigger; // set to 3 merged ones
                     self.intervals.remove(i);
                 }
                 return;
-- 
2.43.0


From 7adcf77eef3d884a97bd3353f71d240aff819045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 07/17] fix: wildcard matches the first and last symbol of the
 vocabulary

---
 src/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transition.rs b/src/transition.rs
index 15f527c..b12eef8 100644
--- a/src/transition.rs
+++ b/src/transition.rs
@@ -298,7 +298,7 @@ impl Transition for WildcardTransition {
     }
 
     fn matches(&self, _symbol: isize, _min_vocab_symbol: isize, _max_vocab_symbol: isize) -> bool {
-        _symbol < _max_vocab_symbol && _symbol > _min_vocab_symbol
+        _symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol
     }
 }
 
-- 
2.43.0


From a25c680f23480f6561665591eddc457952dd0433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 08/17] fix: CommonTokenStream starts at the first token of its
 channel

---
 src/common_token_stream.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index a56ddc7..3e0d96e 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -106,7 +106,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             base: UnbufferedTokenStream::new_buffered(lexer),
             channel,
         };
-        r.sync(0);
+        r.reset();
         r
     }
 
@@ -129,6 +129,8 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
     pub fn reset(&mut self) {
         self.base.p = 0;
         self.base.current_token_index = 0;
+        let first = self.next_token_on_channel(0, self.channel, 1);
+        self.base.seek(first);
     }
 
     /// Creates iterator over this token stream
@@ -172,6 +174,9 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             }
 
             i += direction;
+            if i < 0 {
+                return i;
+            }
             self.sync(i);
             token = self.base.tokens[i as usize].borrow();
         }
-- 
2.43.0


From d89ab5d3c4db3dd68403365f3ca295e4ca2a273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 09/17] fix: UnbufferedTokenStream::lt(-1) at the start of the
 stream is None, not a panic

---
 src/token_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9623c72..c9e0bd2 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -155,7 +155,7 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
         if i == -1 {
-            return self.tokens.get(self.p as usize - 1);
+            return self.tokens.get((self.p - 1) as usize);
         }
 
         self.sync(i);
-- 
2.43.0


From 7c3909ca035048d5c1c7945e61c4d858cc9c0352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:26 +0000
Subject: [PATCH 10/17] fix: iterating a stream to its end does not consume EOF

---
 src/int_stream.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/int_stream.rs b/src/int_stream.rs
index 1ae40bc..c4451bd 100644
--- a/src/int_stream.rs
+++ b/src/int_stream.rs
@@ -75,11 +75,12 @@ impl<'a, T: IntStream> Iterator for IterWrapper<'a, T> {
     type Item = isize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.0.la(1);
-        self.0.consume();
-        match result {
+        match self.0.la(1) {
             EOF => None,
-            x => Some(x),
+            x => {
+                self.0.consume();
+                Some(x)
+            }
         }
     }
 }
-- 
2.43.0


From e14e69ef9f77c165178a796f2af4de792b8820b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:17 +0000
Subject: [PATCH 11/17] fix: combined semantic predicates are evaluated in the
 same order on every run

---
 src/semantic_context.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/semantic_context.rs b/src/semantic_context.rs
index a32f5e9..ce98269 100644
--- a/src/semantic_context.rs
+++ b/src/semantic_context.rs
@@ -4,6 +4,7 @@ use std::cmp::Ordering;
 use std::collections::HashSet;
 
 use crate::parser::{Parser, ParserNodeType};
+use crate::prediction_context::MurmurHasherBuilder;
 
 //pub trait SemanticContext:Sync + Send {
 ////    fn evaluate(&self, parser: &Recognizer, outerContext: &RuleContext) -> bool;
@@ -137,7 +138,7 @@ impl SemanticContext {
     }
 
     pub fn new_and(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
+        let mut operands = HashSet::with_hasher(MurmurHasherBuilder {});
         if let SemanticContext::AND(ops) = a {
             operands.extend(ops.iter().cloned())
         } else {
@@ -163,7 +164,7 @@ impl SemanticContext {
     }
 
     pub fn new_or(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
+        let mut operands = HashSet::with_hasher(MurmurHasherBuilder {});
         if let SemanticContext::OR(ops) = a {
             operands.extend(ops.iter().cloned())
         } else {
@@ -239,7 +240,9 @@ fn sort_prec_pred(a: &&SemanticContext, b: &&SemanticContext) -> Ordering {
     }
 }
 
-fn filter_precedence_predicate(collection: &mut HashSet<SemanticContext>) -> Vec<SemanticContext> {
+fn filter_precedence_predicate(
+    collection: &mut HashSet<SemanticContext, MurmurHasherBuilder>,
+) -> Vec<SemanticContext> {
     let mut result = vec![];
     collection.retain(|it| {
         if let SemanticContext::Precedence(_) = it {
-- 
2.43.0


From c04586540deca0c4dcd169fabbefcfa86198052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:02 +0000
Subject: [PATCH 12/17] fix: CommonTokenStream lookbehind past the first
 on-channel token is None

---
 src/common_token_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index 3e0d96e..55fcf26 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -222,7 +222,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             i = self.next_token_on_channel(i - 1, self.channel, -1);
             n += 1;
         }
-        if i < 0 {
+        if i < 0 || n <= k {
             return None;
         }
 
-- 
2.43.0


From b4ff0776916991457a69ebcb53a17c1e5d489566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:33 +0000
Subject: [PATCH 13/17] fix: CommonTokenStream::seek lands on a token of its
 channel

---
 src/common_token_stream.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index 55fcf26..5e2114a 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -50,6 +50,7 @@ impl<'input, T: TokenSource<'input>> IntStream for CommonTokenStream<'input, T>
 
     #[inline(always)]
     fn seek(&mut self, index: isize) {
+        let index = self.next_token_on_channel(index, self.channel, 1);
         self.base.seek(index);
     }
 
-- 
2.43.0


From 07235ba7a93c92b11d5fca42896b3701cb883659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:53 +0000
Subject: [PATCH 14/17] fix: UnbufferedTokenStream lookbehind by more than one
 token

---
 src/token_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index c9e0bd2..6db451f 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -154,8 +154,8 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
-        if i == -1 {
-            return self.tokens.get((self.p - 1) as usize);
+        if i < 0 {
+            return self.tokens.get((self.p + i) as usize);
         }
 
         self.sync(i);
-- 
2.43.0


From a262971841a5d66814a282f4e36b0787f8327082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:53 +0000
Subject: [PATCH 15/17] fix: UnbufferedTokenStream lookahead past the end is
 EOF

---
 src/token_stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 6db451f..05ba128 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -160,7 +160,11 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
         self.sync(i);
 
-        self.tokens.get((self.p + i - 1) as usize)
+        let index = self.p + i - 1;
+        if index >= self.tokens.len() as isize {
+            return self.tokens.last(); // EOF
+        }
+        self.tokens.get(index as usize)
     }
 
     #[inline]
-- 
2.43.0


From 1066940b3fd57dbd2ad3458439850753e38549e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:53 +0000
Subject: [PATCH 16/17] fix: seeking forward in UnbufferedTokenStream reaches
 tokens not fetched yet

---
 src/token_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 05ba128..9fbf77e 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -278,8 +278,8 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             return;
         }
         if index > self.current_token_index {
-            self.sync(index - self.current_token_index);
-            index = min(index, self.get_buffer_start_index() + self.size() + 1);
+            self.sync(index - self.current_token_index + 1);
+            index = min(index, self.get_buffer_start_index() + self.size() - 1);
         }
         let i = index - self.get_buffer_start_index();
         if i < 0 || i >= self.tokens.len() as isize {
-- 
2.43.0


From ca5bcff7cef7b40b4a96af0107b7b77a06270d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:48 +0000
Subject: [PATCH 17/17] fix: no-viable-alternative messages escape white space
 like the other messages

---
 src/error_strategy.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 04025ad..3acb27b 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -198,7 +198,10 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             )
         };
 
-        format!("no viable alternative at input '{}'", input)
+        format!(
+            "no viable alternative at input {}",
+            self.escape_ws_and_quote(&input)
+        )
     }
 
     fn report_input_mismatch<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
-- 
2.43.0

