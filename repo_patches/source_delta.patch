From 810f254cd3a80ea8043ada720de9bf664d0f105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:05 +0000
Subject: [PATCH 01/32] fix: the wildcard matches the first and last symbol of
 the vocabulary

'.' used strict bounds, so it never matched the token type with the highest
number in a parser (or U+0000 and U+10FFFF in a lexer).
---
 src/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transition.rs b/src/transition.rs
index 15f527c..b12eef8 100644
--- a/src/transition.rs
+++ b/src/transition.rs
@@ -298,7 +298,7 @@ impl Transition for WildcardTransition {
     }
 
     fn matches(&self, _symbol: isize, _min_vocab_symbol: isize, _max_vocab_symbol: isize) -> bool {
-        _symbol < _max_vocab_symbol && _symbol > _min_vocab_symbol
+        _symbol >= _min_vocab_symbol && _symbol <= _max_vocab_symbol
     }
 }
 
-- 
2.43.0


From 2926b2b35998b44eb636236471bf4fc26e916876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:22 +0000
Subject: [PATCH 02/32] fix: a full-context dead end reports the token it
 stopped at

exec_atn_with_full_context went back to the start of the decision before
building the error, so the offending token was always the first token of the
decision instead of the one no alternative could match.
---
 src/parser_atn_simulator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9043c48..9099bf4 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -475,6 +475,7 @@ impl ParserATNSimulator {
             let reach = self.compute_reach_set(&prev, t, full_ctx, local);
             prev = match reach {
                 None => {
+                    let err = self.no_viable_alt(local, &prev, self.start_index.get());
                     local.input().seek(self.start_index.get());
                     let alt = self
                         .get_syn_valid_or_sem_invalid_alt_that_finished_decision_entry_rule(
@@ -483,7 +484,7 @@ impl ParserATNSimulator {
                     if alt != INVALID_ALT {
                         return Ok(alt);
                     }
-                    return Err(self.no_viable_alt(local, &prev, self.start_index.get()));
+                    return Err(err);
                 }
                 Some(x) => x,
             };
-- 
2.43.0


From dc6f1aab947d6f625886ad3102690cab93432032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:25 +0000
Subject: [PATCH 03/32] fix: a failed prediction restores the input position
 and releases its mark

adaptive_predict returned early on an error, so an unbuffered token stream kept
its mark (and every later token) for the rest of the parse.
---
 src/parser_atn_simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser_atn_simulator.rs b/src/parser_atn_simulator.rs
index 9099bf4..6f19c2c 100644
--- a/src/parser_atn_simulator.rs
+++ b/src/parser_atn_simulator.rs
@@ -226,13 +226,13 @@ impl ParserATNSimulator {
                 s0
             });
 
-            self.exec_atn(&mut local, s0)?
+            self.exec_atn(&mut local, s0)
         };
 
         local.input().seek(self.start_index.get());
         local.input().release(m);
         //        println!("result = {}", result);
-        Ok(result)
+        result
     }
 
     #[allow(non_snake_case)]
-- 
2.43.0


From fa99af1e1a328525ff780fa12baec8188bf6c2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:22 +0000
Subject: [PATCH 04/32] fix: single token insertion can no longer repeat
 forever at one place

Inserting a missing token consumes nothing, so a loop (or a recursive rule)
whose body could start with the current token inserted the same token again and
again, e.g. r0: r1 (r1 A)* EOF; r1: (B A)?; on input B.
---
 src/error_strategy.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 04025ad..014ffcd 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -146,6 +146,9 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     last_error_states: Option<IntervalSet>,
     next_tokens_state: isize,
     next_tokens_ctx: Option<Rc<Ctx::Type>>,
+    /// single token insertions made at this input index: parser state and rule depth
+    last_insertion_index: isize,
+    last_insertions: Vec<(isize, usize)>,
 }
 
 better_any::tid! { impl<'i,Ctx> TidAble<'i> for DefaultErrorStrategy<'i,Ctx> where Ctx: ParserNodeType<'i>}
@@ -165,6 +168,8 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
             next_tokens_ctx: None,
+            last_insertion_index: -1,
+            last_insertions: Vec::new(),
         }
     }
 
@@ -182,6 +187,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
         self.error_recovery_mode = false;
         self.last_error_index = -1;
         self.last_error_states = None;
+        self.last_insertions.clear();
     }
 
     fn report_no_viable_alternative<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
@@ -284,13 +290,39 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             atn.states[next].as_ref(),
             Some(recognizer.get_parser_rule_context().deref()),
         );
-        if expect_at_ll2.contains(current_token) {
+        if expect_at_ll2.contains(current_token) && self.insertion_makes_progress(recognizer) {
             self.report_missing_token(recognizer);
             return true;
         }
         false
     }
 
+    /// Inserting a token consumes no input, so a loop or a recursive rule could insert the
+    /// same token at the same place forever. Repeating an insertion is fine only while the
+    /// rules that need it are being left.
+    fn insertion_makes_progress<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
+        &mut self,
+        recognizer: &mut T,
+    ) -> bool {
+        let index = recognizer.get_input_stream_mut().index();
+        if self.last_insertion_index != index {
+            self.last_insertion_index = index;
+            self.last_insertions.clear();
+        }
+        let state = recognizer.get_state();
+        let mut depth = 0;
+        let mut ctx = recognizer.get_parser_rule_context().get_parent_ctx();
+        while let Some(c) = ctx {
+            depth += 1;
+            ctx = c.get_parent_ctx();
+        }
+        if (self.last_insertions.iter()).any(|&(s, d)| s == state && d <= depth) {
+            return false;
+        }
+        self.last_insertions.push((state, depth));
+        true
+    }
+
     fn single_token_deletion<'a, T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
         &mut self,
         recognizer: &'a mut T,
-- 
2.43.0


From d16b7f4dd3d9c0c84e40f41a37963095264f49af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 05/32] fix: adding a range to an interval set merges all
 ranges it touches

---
 src/interval_set.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/interval_set.rs b/src/interval_set.rs
index 9707c1f..3fa868a 100644
--- a/src/interval_set.rs
+++ b/src/interval_set.rs
@@ -130,23 +130,19 @@ impl IntervalSet {
 
             if added.adjacent(r) || !added.disjoint(r) {
                 // next to each other, make a single larger interval
-                let bigger = added.union(r);
+                let mut bigger = added.union(r);
                 *r = bigger;
                 // make sure we didn't just create an interval that
-                // should be merged with next interval in list
-                loop {
-                    i += 1;
-                    let next = match self.intervals.get(i) {
-                        Some(v) => v,
-                        None => break,
-                    };
+                // should be merged with next intervals in list
+                while let Some(next) = self.intervals.get(i + 1) {
                     if !bigger.adjacent(next) && bigger.disjoint(next) {
                         break;
                     }
 
                     // if we bump up against or overlap next, merge
-                    self.intervals[i - 1] = bigger.union(next); // set to 3 merged ones
-                    self.intervals.remove(i);
+                    bigger = bigger.union(next); // set to 3 merged ones
+                    self.intervals[i] = bigger;
+                    self.intervals.remove(i + 1);
                 }
                 return;
             }
-- 
2.43.0


From 4780607c85ecfe5f4dac45160524f4d0a2454ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 06/32] fix: iterating over a stream does not consume its end
 of file

---
 src/int_stream.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/int_stream.rs b/src/int_stream.rs
index 1ae40bc..c4451bd 100644
--- a/src/int_stream.rs
+++ b/src/int_stream.rs
@@ -75,11 +75,12 @@ impl<'a, T: IntStream> Iterator for IterWrapper<'a, T> {
     type Item = isize;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let result = self.0.la(1);
-        self.0.consume();
-        match result {
+        match self.0.la(1) {
             EOF => None,
-            x => Some(x),
+            x => {
+                self.0.consume();
+                Some(x)
+            }
         }
     }
 }
-- 
2.43.0


From a0ad6e5ab95c74387ec72cb75c825bd37723288b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 07/32] fix: a channel's token stream starts at the first token
 of the channel

---
 src/common_token_stream.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index a56ddc7..33abd3a 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -106,7 +106,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             base: UnbufferedTokenStream::new_buffered(lexer),
             channel,
         };
-        r.sync(0);
+        r.reset();
         r
     }
 
@@ -127,8 +127,8 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
     /// Restarts this token stream
     pub fn reset(&mut self) {
-        self.base.p = 0;
-        self.base.current_token_index = 0;
+        let first = self.next_token_on_channel(0, self.channel, 1);
+        self.base.seek(first);
     }
 
     /// Creates iterator over this token stream
-- 
2.43.0


From f88057d5bb2d91bd3ac2d5fea9f6e709f5b82c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 08/32] fix: looking behind the first token of a channel gives
 no token

---
 src/common_token_stream.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common_token_stream.rs b/src/common_token_stream.rs
index 33abd3a..78173df 100644
--- a/src/common_token_stream.rs
+++ b/src/common_token_stream.rs
@@ -167,11 +167,14 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
 
         let mut token = self.base.tokens[i as usize].borrow();
         while token.get_channel() != channel {
-            if token.get_token_type() == EOF || i < 0 {
+            if token.get_token_type() == EOF {
                 return i;
             }
 
             i += direction;
+            if i < 0 {
+                return i;
+            }
             self.sync(i);
             token = self.base.tokens[i as usize].borrow();
         }
@@ -217,7 +220,7 @@ impl<'input, T: TokenSource<'input>> CommonTokenStream<'input, T> {
             i = self.next_token_on_channel(i - 1, self.channel, -1);
             n += 1;
         }
-        if i < 0 {
+        if i < 0 || n <= k {
             return None;
         }
 
-- 
2.43.0


From d328ca25075c35a87c6b35e2806148517b5374c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 09/32] fix: looking around in an unbuffered token stream works
 at both ends

---
 src/token_stream.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 9623c72..7503111 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -154,13 +154,15 @@ impl<'input, T: TokenSource<'input>> TokenStream<'input> for UnbufferedTokenStre
 
     #[inline]
     fn lt(&mut self, i: isize) -> Option<&<Self::TF as TokenFactory<'input>>::Tok> {
-        if i == -1 {
-            return self.tokens.get(self.p as usize - 1);
+        if i < 0 {
+            return self.tokens.get((self.p + i) as usize);
         }
 
         self.sync(i);
 
-        self.tokens.get((self.p + i - 1) as usize)
+        // end of file is always the last token
+        let index = min(self.p + i - 1, self.tokens.len() as isize - 1);
+        self.tokens.get(index as usize)
     }
 
     #[inline]
-- 
2.43.0


From 77e13a46ebe5a8f2e05eb3766a59ba55f2e6eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 10/32] fix: releasing a mark of an unbuffered token stream
 keeps the previous token

---
 src/token_stream.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 7503111..733a609 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -241,8 +241,9 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
 
         self.markers_count -= 1;
         if self.markers_count == 0 {
-            if self.p > 0 {
-                self.tokens.drain(0..self.p as usize);
+            if self.p > 1 {
+                // previous token is kept for lt(-1)
+                self.tokens.drain(0..self.p as usize - 1);
                 //todo drain assembly is almost 2x longer than
                 // unsafe manual copy but need to bench before using unsafe
                 //let new_len = self.tokens.len() - self.p as usize;
@@ -260,7 +261,7 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
                 //     self.tokens.set_len(new_len);
                 // }
 
-                self.p = 0;
+                self.p = 1;
             }
         }
     }
-- 
2.43.0


From 84c02428728729c38ec22f449397313d0682fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:57 +0000
Subject: [PATCH 11/32] fix: seeking forward in an unbuffered token stream
 fetches the target token

---
 src/token_stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 733a609..5e6a4ff 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -277,8 +277,8 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             return;
         }
         if index > self.current_token_index {
-            self.sync(index - self.current_token_index);
-            index = min(index, self.get_buffer_start_index() + self.size() + 1);
+            self.sync(index - self.current_token_index + 1);
+            index = min(index, self.get_buffer_start_index() + self.size() - 1);
         }
         let i = index - self.get_buffer_start_index();
         if i < 0 || i >= self.tokens.len() as isize {
-- 
2.43.0


From 4631a64bed8f3c0846187f4b6e8d0c739f2f2819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:52 +0000
Subject: [PATCH 12/32] fix: a mismatch does not list tokens expected at an
 earlier place

---
 src/error_strategy.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 014ffcd..fd607b6 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -188,6 +188,13 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
         self.last_error_index = -1;
         self.last_error_states = None;
         self.last_insertions.clear();
+        self.forget_next_tokens();
+    }
+
+    /// What `sync` has skipped is of no interest once the input has moved on
+    fn forget_next_tokens(&mut self) {
+        self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
+        self.next_tokens_ctx = None;
     }
 
     fn report_no_viable_alternative<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
@@ -485,6 +492,7 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
             .apply(|x| x.add_one(recognizer.get_state()));
         let follow_set = self.get_error_recovery_set(recognizer);
         self.consume_until(recognizer, &follow_set);
+        self.forget_next_tokens();
         Ok(())
     }
 
@@ -500,8 +508,7 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
         //        println!("{:?}",next_tokens);
 
         if next_tokens.contains(next) {
-            self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
-            self.next_tokens_ctx = None;
+            self.forget_next_tokens();
             return Ok(());
         }
 
-- 
2.43.0


From 7094c3c3d08f1555e10e466aede1a34c9f959f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:36 +0000
Subject: [PATCH 13/32] fix: labels \uFFFE and \uFFFF of an edge are
 characters, not EOF or an empty range

---
 src/atn_deserializer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 593da83..9f4a0af 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -478,9 +478,9 @@ impl ATNDeserializer {
                 start: if arg3 != 0 {
                     super::token::TOKEN_EOF
                 } else {
-                    arg1
+                    arg1 as u16 as isize
                 },
-                stop: arg2,
+                stop: arg2 as u16 as isize,
             }),
             TRANSITION_RULE => {
                 //                base.set_target(arg1 as usize);
@@ -499,7 +499,11 @@ impl ATNDeserializer {
             }),
             TRANSITION_ATOM => Box::new(AtomTransition {
                 target,
-                label: if arg3 != 0 { EOF } else { arg1 },
+                label: if arg3 != 0 {
+                    EOF
+                } else {
+                    arg1 as u16 as isize
+                },
             }),
             TRANSITION_ACTION => Box::new(ActionTransition {
                 target,
-- 
2.43.0


From 3dc90e2bec8068f2c9fa42d85380ce352fa6b62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:39 +0000
Subject: [PATCH 14/32] fix: LexerATNSimulator::set_line sets the line, not the
 column

---
 src/lexer_atn_simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 433324d..2144f87 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -117,7 +117,7 @@ impl ILexerATNSimulator for LexerATNSimulator {
     }
 
     fn set_line(&mut self, line: isize) {
-        self.current_pos.char_position_in_line.set(line)
+        self.current_pos.line.set(line)
     }
 
     fn consume<T: IntStream + ?Sized>(&self, _input: &mut T) {
-- 
2.43.0


From d313ab0aeb2529e3a80161ced420129ed0514f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:16 +0000
Subject: [PATCH 15/32] fix: a token set by a lexer action is returned, not
 dropped

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 88fefcd..d0d3800 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -381,8 +381,8 @@ where
 
             if self.token.is_none() {
                 self.emit();
-                break;
             }
+            break;
         }
         self.input().release(_marker);
         self.token.take().unwrap()
-- 
2.43.0


From 80827eccdf1a0131ea3a3ae8158ebc9018c7e71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:19 +0000
Subject: [PATCH 16/32] fix: rehash a lexer action executor when its actions
 change

---
 src/lexer_action_executor.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lexer_action_executor.rs b/src/lexer_action_executor.rs
index 4bfaaa7..76ac00d 100644
--- a/src/lexer_action_executor.rs
+++ b/src/lexer_action_executor.rs
@@ -39,11 +39,9 @@ impl LexerActionExecutor {
         old: Option<&Self>,
         lexer_action: LexerAction,
     ) -> LexerActionExecutor {
-        let mut new = old
-            .cloned()
-            .unwrap_or_else(|| LexerActionExecutor::new(Vec::new()));
-        new.lexer_actions.push(lexer_action);
-        new
+        let mut lexer_actions = old.map_or_else(Vec::new, |old| old.lexer_actions.clone());
+        lexer_actions.push(lexer_action);
+        LexerActionExecutor::new(lexer_actions)
     }
 
     pub fn fix_offset_before_match(mut self, offset: isize) -> LexerActionExecutor {
@@ -60,7 +58,7 @@ impl LexerActionExecutor {
                 }
             }
         }
-        self
+        LexerActionExecutor::new(self.lexer_actions)
     }
 
     pub fn execute<'input>(&self, lexer: &mut impl Lexer<'input>, start_index: isize) {
-- 
2.43.0


From a7f68fcb49687c4a1ff225f7f5571e112788057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:03 +0000
Subject: [PATCH 17/32] verif: guarded access for verification harnesses (cfg
 antlr_verif)

---
 src/lib.rs                |  3 ++
 src/prediction_context.rs |  6 ++-
 src/verif.rs              | 90 +++++++++++++++++++++++++++++++++++++++
 3 files changed, 98 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 18b2ee0..efaf168 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -169,6 +169,9 @@ mod prediction_mode;
 pub mod token;
 pub mod trees;
 mod utils;
+#[cfg(antlr_verif)]
+#[doc(hidden)]
+pub mod verif;
 //pub mod tokenstream_rewriter_test;
 mod atn_type;
 // mod context_factory;
diff --git a/src/prediction_context.rs b/src/prediction_context.rs
index 3083506..652833b 100644
--- a/src/prediction_context.rs
+++ b/src/prediction_context.rs
@@ -4,7 +4,11 @@ use std::fmt::{Display, Error, Formatter};
 use std::hash::{BuildHasher, Hash, Hasher};
 use std::ops::Deref;
 
-use std::sync::{Arc, RwLock};
+#[cfg(antlr_verif)]
+use crate::verif::sync::RwLock;
+use std::sync::Arc;
+#[cfg(not(antlr_verif))]
+use std::sync::RwLock;
 
 use murmur3::murmur3_32::MurmurHasher;
 
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..ab564a5
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,90 @@
+//! Access for verification harnesses, compiled only with `--cfg antlr_verif`.
+#![allow(missing_docs)]
+
+pub type MergeCache = crate::parser_atn_simulator::MergeCache;
+pub use crate::prediction_context::*;
+
+use crate::parser::{Parser, ParserNodeType};
+use crate::semantic_context::SemanticContext;
+
+pub fn evaluate<'a, T: Parser<'a>>(
+    formula: &SemanticContext,
+    parser: &mut T,
+    outer_context: &<T::Node as ParserNodeType<'a>>::Type,
+) -> bool {
+    formula.evaluate(parser, outer_context)
+}
+
+pub fn eval_precedence<'a, T: Parser<'a>>(
+    formula: &SemanticContext,
+    parser: &T,
+    outer_context: &<T::Node as ParserNodeType<'a>>::Type,
+) -> Option<SemanticContext> {
+    formula
+        .eval_precedence(parser, outer_context)
+        .map(|x| x.into_owned())
+}
+
+/// `std::sync::RwLock` that tells a controlled scheduler before it locks and while it would block
+pub mod sync {
+    use std::ops::Deref;
+    use std::sync::atomic::{AtomicUsize, Ordering};
+    use std::sync::{LockResult, RwLockReadGuard, RwLockWriteGuard, TryLockError};
+
+    static HOOK: AtomicUsize = AtomicUsize::new(0);
+
+    /// `hook(false)` is called before a lock operation, `hook(true)` when it would block
+    pub fn set_hook(hook: fn(bool)) {
+        HOOK.store(hook as usize, Ordering::SeqCst)
+    }
+
+    fn call(blocked: bool) {
+        match HOOK.load(Ordering::SeqCst) {
+            0 if blocked => std::thread::yield_now(),
+            0 => {}
+            f => {
+                let f = unsafe { std::mem::transmute::<usize, fn(bool)>(f) };
+                f(blocked)
+            }
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct RwLock<T>(std::sync::RwLock<T>);
+
+    impl<T> Deref for RwLock<T> {
+        type Target = std::sync::RwLock<T>;
+
+        fn deref(&self) -> &Self::Target {
+            &self.0
+        }
+    }
+
+    impl<T> RwLock<T> {
+        pub fn new(value: T) -> Self {
+            RwLock(std::sync::RwLock::new(value))
+        }
+
+        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+            call(false);
+            loop {
+                match self.0.try_read() {
+                    Ok(x) => return Ok(x),
+                    Err(TryLockError::Poisoned(x)) => return Err(x),
+                    Err(TryLockError::WouldBlock) => call(true),
+                }
+            }
+        }
+
+        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+            call(false);
+            loop {
+                match self.0.try_write() {
+                    Ok(x) => return Ok(x),
+                    Err(TryLockError::Poisoned(x)) => return Err(x),
+                    Err(TryLockError::WouldBlock) => call(true),
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From 1c398c18b87f38fc5f288c36af232a50681b9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:36 +0000
Subject: [PATCH 18/32] fix: operands of and/or have one order, so equal
 formulas are equal

---
 src/semantic_context.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/semantic_context.rs b/src/semantic_context.rs
index a32f5e9..6d772e9 100644
--- a/src/semantic_context.rs
+++ b/src/semantic_context.rs
@@ -1,7 +1,7 @@
 use std::borrow::Cow::{Borrowed, Owned};
 use std::borrow::{Borrow, Cow};
 use std::cmp::Ordering;
-use std::collections::HashSet;
+use std::collections::BTreeSet;
 
 use crate::parser::{Parser, ParserNodeType};
 
@@ -18,7 +18,7 @@ use crate::parser::{Parser, ParserNodeType};
 //     }
 // }
 
-#[derive(Clone, Eq, PartialEq, Hash, Debug)]
+#[derive(Clone, Eq, PartialEq, Ord, PartialOrd, Hash, Debug)]
 pub enum SemanticContext {
     Predicate {
         rule_index: isize,
@@ -137,7 +137,7 @@ impl SemanticContext {
     }
 
     pub fn new_and(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
+        let mut operands = BTreeSet::new();
         if let SemanticContext::AND(ops) = a {
             operands.extend(ops.iter().cloned())
         } else {
@@ -163,7 +163,7 @@ impl SemanticContext {
     }
 
     pub fn new_or(a: &SemanticContext, b: &SemanticContext) -> SemanticContext {
-        let mut operands = HashSet::new();
+        let mut operands = BTreeSet::new();
         if let SemanticContext::OR(ops) = a {
             operands.extend(ops.iter().cloned())
         } else {
@@ -239,7 +239,7 @@ fn sort_prec_pred(a: &&SemanticContext, b: &&SemanticContext) -> Ordering {
     }
 }
 
-fn filter_precedence_predicate(collection: &mut HashSet<SemanticContext>) -> Vec<SemanticContext> {
+fn filter_precedence_predicate(collection: &mut BTreeSet<SemanticContext>) -> Vec<SemanticContext> {
     let mut result = vec![];
     collection.retain(|it| {
         if let SemanticContext::Precedence(_) = it {
-- 
2.43.0


From 65bb387560012054d6bd5d97c4919b5527ddf18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:07 +0000
Subject: [PATCH 19/32] fix: precedence predicates of a formula are evaluated
 when every operand changes

---
 src/semantic_context.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/semantic_context.rs b/src/semantic_context.rs
index 6d772e9..bfaf879 100644
--- a/src/semantic_context.rs
+++ b/src/semantic_context.rs
@@ -78,7 +78,7 @@ impl SemanticContext {
                 let mut operands = vec![];
                 for context in ops {
                     let evaluated = context.eval_precedence(parser, outer_context);
-                    differs |= evaluated.is_some() && context == evaluated.as_deref().unwrap();
+                    differs |= evaluated.as_deref() != Some(context);
 
                     if let Some(evaluated) = evaluated {
                         if *evaluated == Self::NONE {
@@ -108,7 +108,7 @@ impl SemanticContext {
                 let mut operands = vec![];
                 for context in ops {
                     let evaluated = context.eval_precedence(parser, outer_context);
-                    differs |= evaluated.is_some() && context == evaluated.as_deref().unwrap();
+                    differs |= evaluated.as_deref() != Some(context);
 
                     if let Some(evaluated) = evaluated {
                         if *evaluated != Self::NONE {
-- 
2.43.0


From e70e6fd86fd779c84371199cb9833b592efd3d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:27 +0000
Subject: [PATCH 20/32] fix: serialized grammars of older formats are read as
 what they are

---
 src/atn_deserializer.rs | 63 ++++++++++++++++++++++++++++++++---------
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index 9f4a0af..d59312f 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -63,25 +63,29 @@ impl ATNDeserializer {
 
         self.check_version(data.next().unwrap() + 2);
 
-        let _uuid = self.check_uuid(&mut data);
+        let uuid = self.check_uuid(&mut data);
+        let supports_precedence = self.is_feature_supported(&ADDED_PRECEDENCE_TRANSITIONS, &uuid);
+        let supports_lexer_actions = self.is_feature_supported(&ADDED_LEXER_ACTIONS, &uuid);
 
         let mut atn = self.read_atn(&mut data);
 
-        self.read_states(&mut atn, &mut data);
-        self.read_rules(&mut atn, &mut data);
+        self.read_states(&mut atn, &mut data, supports_precedence);
+        self.read_rules(&mut atn, &mut data, supports_lexer_actions);
         self.read_modes(&mut atn, &mut data);
 
         let mut sets = self.read_sets(&mut atn, &mut data, |data| {
             data.next().unwrap() as u16 as isize
         });
 
-        sets.extend(self.read_sets(&mut atn, &mut data, |data| {
-            (data.next().unwrap() & 0xFFFF) | data.next().unwrap() << 16
-        }));
+        if self.is_feature_supported(&ADDED_UNICODE_SMP, &uuid) {
+            sets.extend(self.read_sets(&mut atn, &mut data, |data| {
+                (data.next().unwrap() & 0xFFFF) | data.next().unwrap() << 16
+            }));
+        }
 
-        self.read_edges(&mut atn, &mut data, &sets);
+        self.read_edges(&mut atn, &mut data, &sets, supports_lexer_actions);
         self.read_decisions(&mut atn, &mut data);
-        if atn.grammar_type == ATNType::LEXER {
+        if atn.grammar_type == ATNType::LEXER && supports_lexer_actions {
             self.read_lexer_actions(&mut atn, &mut data);
         }
         self.mark_precedence_decisions(&mut atn, &mut data);
@@ -124,6 +128,12 @@ impl ATNDeserializer {
         uuid
     }
 
+    /// Whether data with identifier `actual` has the parts that came with `feature`
+    fn is_feature_supported(&self, feature: &Uuid, actual: &Uuid) -> bool {
+        let position = |uuid| SUPPORTED_UUIDS.iter().position(|it| it == uuid);
+        position(actual) >= position(feature)
+    }
+
     fn read_atn(&self, data: &mut dyn Iterator<Item = isize>) -> ATN {
         let atn = ATN::new_atn(
             match data.next() {
@@ -137,7 +147,12 @@ impl ATNDeserializer {
         atn
     }
 
-    fn read_states(&self, atn: &mut ATN, data: &mut dyn Iterator<Item = isize>) {
+    fn read_states(
+        &self,
+        atn: &mut ATN,
+        data: &mut dyn Iterator<Item = isize>,
+        supports_precedence: bool,
+    ) {
         //        let loop_back_states = Vec::<(BaseATNState,isize)>::new();
         //        let end_states = Vec::<(BaseATNState,isize)>::new();
         let states_count = data.next().unwrap() as usize;
@@ -178,8 +193,7 @@ impl ATNDeserializer {
             }
         }
 
-        //if (supportsPrecedencePredicates)
-        if true {
+        if supports_precedence {
             let num_precedence_states = data.next().unwrap();
             for _ in 0..num_precedence_states {
                 let st = data.next().unwrap() as usize;
@@ -194,7 +208,12 @@ impl ATNDeserializer {
         }
     }
 
-    fn read_rules(&self, atn: &mut ATN, data: &mut dyn Iterator<Item = isize>) {
+    fn read_rules(
+        &self,
+        atn: &mut ATN,
+        data: &mut dyn Iterator<Item = isize>,
+        supports_lexer_actions: bool,
+    ) {
         let nrules = data.next().unwrap() as usize;
         //        if atn.grammar_type == ATNType::LEXER {
         //            atn.rule_to_token_type.resize(nrules, 0)
@@ -208,6 +227,11 @@ impl ATNDeserializer {
                 let token_type = data.next().unwrap();
 
                 atn.rule_to_token_type.push(token_type);
+
+                if !supports_lexer_actions {
+                    // index of the rule's action, which its action transitions have as well
+                    data.next().unwrap();
+                }
             }
         }
         //println!("rule_to_token_type {:?}", atn.rule_to_token_type);
@@ -272,6 +296,7 @@ impl ATNDeserializer {
         atn: &mut ATN,
         data: &mut dyn Iterator<Item = isize>,
         sets: &Vec<IntervalSet>,
+        supports_lexer_actions: bool,
     ) {
         let nedges = data.next().unwrap();
 
@@ -280,9 +305,21 @@ impl ATNDeserializer {
             let trg = data.next().unwrap() as usize;
             let ttype = data.next().unwrap();
             let arg1 = data.next().unwrap();
-            let arg2 = data.next().unwrap();
+            let mut arg2 = data.next().unwrap();
             let arg3 = data.next().unwrap();
 
+            if ttype == TRANSITION_ACTION
+                && atn.grammar_type == ATNType::LEXER
+                && !supports_lexer_actions
+            {
+                // before there were lexer actions, all actions were custom ones
+                atn.lexer_actions.push(LexerCustomAction {
+                    rule_index: arg1,
+                    action_index: arg2,
+                });
+                arg2 = atn.lexer_actions.len() as isize - 1;
+            }
+
             let transition = self.edge_factory(atn, ttype, src, trg, arg1, arg2, arg3, sets);
 
             atn.states.get_mut(src).unwrap().add_transition(transition);
-- 
2.43.0


From 5467c0533bd97eadeaf7a015c852f6e825dc34a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:40 +0000
Subject: [PATCH 21/32] fix: the serialized value 0xFFFE is not read as -2

---
 src/atn_deserializer.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/atn_deserializer.rs b/src/atn_deserializer.rs
index d59312f..8d4c440 100644
--- a/src/atn_deserializer.rs
+++ b/src/atn_deserializer.rs
@@ -57,7 +57,8 @@ impl ATNDeserializer {
             let mut ch = ch as isize;
             // decode surrogates
             ch = if ch > 0xFFFF { ch - 0x3000 } else { ch };
-            ch -= 2;
+            // values are 16 bit wide, the offset of 2 wraps around
+            ch -= if ch < 2 { 2 - 0x10000 } else { 2 };
             ch
         });
 
@@ -224,7 +225,10 @@ impl ATNDeserializer {
             let s = data.next().unwrap() as usize;
             atn.rule_to_start_state[i] = s;
             if atn.grammar_type == ATNType::LEXER {
-                let token_type = data.next().unwrap();
+                let mut token_type = data.next().unwrap();
+                if token_type == 0xFFFF {
+                    token_type = super::token::TOKEN_EOF;
+                }
 
                 atn.rule_to_token_type.push(token_type);
 
@@ -546,7 +550,7 @@ impl ATNDeserializer {
                 target,
                 is_ctx_dependent: arg3 != 0,
                 rule_index: arg1,
-                action_index: arg2,
+                action_index: if arg2 == 0xFFFF { -1 } else { arg2 },
                 pred_index: 0,
             }),
             TRANSITION_SET => Box::new(SetTransition {
-- 
2.43.0


From 044d22a238747d170298580919a7190fce78acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:12 +0000
Subject: [PATCH 22/32] fix: listeners are told of a rule before its error
 nodes and of labelled operands

The enter event of a rule was sent when its alternative had been chosen. An
error before that gave error node and exit events of a rule that was never
entered, and for a left recursive rule with labelled alternatives it went to
the placeholder context, so the first operand was exited but never entered.
---
 src/parser.rs | 52 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e5cf988..9f6076b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -144,6 +144,10 @@ pub struct BaseParser<
     precedence_stack: Vec<isize>,
 
     parse_listeners: Vec<Box<T>>,
+    /// whether listeners still have to be told that the current rule was entered
+    enter_pending: bool,
+    /// error nodes of the current rule that listeners get right after it is entered
+    pending_error_nodes: Vec<Rc<ErrorNode<'input, Ctx>>>,
     _syntax_errors: Cell<isize>,
     error_listeners: RefCell<Vec<Box<dyn ErrorListener<'input, Self>>>>,
 
@@ -274,10 +278,15 @@ where
                     .as_deref()
                     .unwrap()
                     .add_child(node.clone().coerce_rc_to());
-                for listener in &mut self.parse_listeners {
-                    listener.visit_error_node(&*node)
+                if self.enter_pending {
+                    self.pending_error_nodes.push(node);
+                } else {
+                    for listener in &mut self.parse_listeners {
+                        listener.visit_error_node(&*node)
+                    }
                 }
             } else {
+                self.flush_enter_rule_event();
                 let node: Rc<TerminalNode<'_, Ctx>> = self.create_token_node(o.clone());
                 self.ctx
                     .as_deref()
@@ -410,6 +419,8 @@ where
             input,
             precedence_stack: vec![0],
             parse_listeners: vec![],
+            enter_pending: false,
+            pending_error_nodes: vec![],
             _syntax_errors: Cell::new(0),
             error_listeners: RefCell::new(vec![Box::new(ConsoleErrorListener {})]),
             ext,
@@ -510,7 +521,24 @@ where
         }
     }
 
+    /// Delivers the enter event of the current rule if that has not happened yet.
+    ///
+    /// It is delivered as late as possible, when the alternative of the rule,
+    /// and with it the final context, is known.
+    fn flush_enter_rule_event(&mut self) {
+        if self.enter_pending {
+            self.enter_pending = false;
+            self.trigger_enter_rule_event();
+            for node in std::mem::take(&mut self.pending_error_nodes) {
+                for listener in &mut self.parse_listeners {
+                    listener.visit_error_node(&*node)
+                }
+            }
+        }
+    }
+
     pub fn trigger_exit_rule_event(&mut self) {
+        self.flush_enter_rule_event();
         let ctx = self.ctx.as_deref().unwrap();
         for listener in self.parse_listeners.iter_mut().rev() {
             ctx.exit(listener);
@@ -529,6 +557,19 @@ where
     //
     //    fn set_token_stream(&self, input: TokenStream) { unimplemented!() }
 
+    /// makes `localctx` the current context, after its parent's enter event
+    fn set_entered_context(&mut self, localctx: Rc<Ctx::Type>) {
+        if self.enter_pending {
+            self.ctx = localctx.get_parent_ctx();
+            if self.ctx.is_some() {
+                self.flush_enter_rule_event();
+            }
+            self.pending_error_nodes.clear();
+        }
+        self.ctx = Some(localctx);
+        self.enter_pending = true;
+    }
+
     fn add_context_to_parse_tree(&mut self) {
         let parent = self.ctx.as_ref().unwrap().get_parent_ctx();
 
@@ -541,7 +582,7 @@ where
     pub fn enter_rule(&mut self, localctx: Rc<Ctx::Type>, state: isize, _rule_index: usize) {
         self.set_state(state);
         localctx.set_start(self.input.lt(1).cloned());
-        self.ctx = Some(localctx);
+        self.set_entered_context(localctx);
         //        let mut localctx = Rc::get_mut(self.ctx.as_mut().unwrap()).unwrap();
         if self.build_parse_trees {
             self.add_context_to_parse_tree()
@@ -584,8 +625,6 @@ where
 
             self.ctx = Some(new_ctx);
         }
-
-        self.trigger_enter_rule_event();
     }
 
     pub fn enter_recursion_rule(
@@ -599,7 +638,7 @@ where
         self.precedence_stack.push(precedence);
         localctx.set_start(self.input.lt(1).cloned());
         //println!("{}",self.input.lt(1).map(Token::to_owned).unwrap());
-        self.ctx = Some(localctx);
+        self.set_entered_context(localctx);
     }
 
     pub fn push_new_recursion_context(
@@ -635,6 +674,7 @@ where
                 self.ctx = self.ctx.as_ref().unwrap().get_parent_ctx()
             }
         } else {
+            self.flush_enter_rule_event();
             self.ctx = parent_ctx;
         }
 
-- 
2.43.0


From 045bd37f50e95bb6594a6400b864f6e66e569dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:32 +0000
Subject: [PATCH 23/32] fix: a parse listener is identified by an id of its
 own, not by its address

Listeners without state all have the same address, so removing one of them
removed the one that was added first, and the id of a dropped listener could
come to stand for a listener of another type.
---
 src/parser.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9f6076b..91d7973 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -4,6 +4,7 @@ use std::cell::{Cell, RefCell};
 use std::marker::PhantomData;
 use std::ops::{Deref, DerefMut};
 use std::rc::Rc;
+use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
 use crate::atn::ATN;
@@ -143,7 +144,7 @@ pub struct BaseParser<
     pub input: I,
     precedence_stack: Vec<isize>,
 
-    parse_listeners: Vec<Box<T>>,
+    parse_listeners: Vec<(usize, Box<T>)>,
     /// whether listeners still have to be told that the current rule was entered
     enter_pending: bool,
     /// error nodes of the current rule that listeners get right after it is entered
@@ -281,7 +282,7 @@ where
                 if self.enter_pending {
                     self.pending_error_nodes.push(node);
                 } else {
-                    for listener in &mut self.parse_listeners {
+                    for (_, listener) in &mut self.parse_listeners {
                         listener.visit_error_node(&*node)
                     }
                 }
@@ -292,7 +293,7 @@ where
                     .as_deref()
                     .unwrap()
                     .add_child(node.clone().coerce_rc_to());
-                for listener in &mut self.parse_listeners {
+                for (_, listener) in &mut self.parse_listeners {
                     listener.visit_terminal(&*node)
                 }
             }
@@ -489,8 +490,9 @@ where
     where
         L: CoerceTo<T>,
     {
-        let id = ListenerId::new(&listener);
-        self.parse_listeners.push(listener.coerce_box_to());
+        let id = ListenerId::new();
+        self.parse_listeners
+            .push((id.actual_id, listener.coerce_box_to()));
         id
     }
 
@@ -503,9 +505,9 @@ where
         let index = self
             .parse_listeners
             .iter()
-            .position(|it| ListenerId::new(it).actual_id == listener_id.actual_id)
+            .position(|(id, _)| *id == listener_id.actual_id)
             .expect("listener not found");
-        unsafe { listener_id.into_listener(self.parse_listeners.remove(index)) }
+        unsafe { listener_id.into_listener(self.parse_listeners.remove(index).1) }
     }
 
     /// Removes all added parse listeners without returning them
@@ -515,7 +517,7 @@ where
 
     pub fn trigger_enter_rule_event(&mut self) {
         let ctx = self.ctx.as_deref().unwrap();
-        for listener in self.parse_listeners.iter_mut() {
+        for (_, listener) in self.parse_listeners.iter_mut() {
             // listener.enter_every_rule(ctx);
             ctx.enter(listener);
         }
@@ -530,7 +532,7 @@ where
             self.enter_pending = false;
             self.trigger_enter_rule_event();
             for node in std::mem::take(&mut self.pending_error_nodes) {
-                for listener in &mut self.parse_listeners {
+                for (_, listener) in &mut self.parse_listeners {
                     listener.visit_error_node(&*node)
                 }
             }
@@ -540,7 +542,7 @@ where
     pub fn trigger_exit_rule_event(&mut self) {
         self.flush_enter_rule_event();
         let ctx = self.ctx.as_deref().unwrap();
-        for listener in self.parse_listeners.iter_mut().rev() {
+        for (_, listener) in self.parse_listeners.iter_mut().rev() {
             ctx.exit(listener);
             // listener.exit_every_rule(ctx);
         }
@@ -742,9 +744,11 @@ pub struct ListenerId<T: ?Sized> {
 }
 
 impl<T: ?Sized> ListenerId<T> {
-    fn new(listener: &Box<T>) -> ListenerId<T> {
+    fn new() -> ListenerId<T> {
+        // never used twice, so that an id can not stand for a listener of another type
+        static NEXT_ID: AtomicUsize = AtomicUsize::new(0);
         ListenerId {
-            actual_id: listener.as_ref() as *const T as *const () as usize,
+            actual_id: NEXT_ID.fetch_add(1, Ordering::Relaxed),
             phantom: Default::default(),
         }
     }
-- 
2.43.0


From e6e5f1bf491c1de70df1159fceac5083312f6a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:01 +0000
Subject: [PATCH 24/32] fix: syntax errors are reported when no parse tree is
 built

With build_parse_trees switched off nothing kept the ancestors of the context
that sync remembers, so reporting a mismatch in it panicked.
---
 src/error_strategy.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index fd607b6..67ba8a9 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -146,6 +146,8 @@ pub struct DefaultErrorStrategy<'input, Ctx: ParserNodeType<'input>> {
     last_error_states: Option<IntervalSet>,
     next_tokens_state: isize,
     next_tokens_ctx: Option<Rc<Ctx::Type>>,
+    /// ancestors of `next_tokens_ctx`, which nothing else keeps if no tree is built
+    next_tokens_parents: Vec<Rc<Ctx::Type>>,
     /// single token insertions made at this input index: parser state and rule depth
     last_insertion_index: isize,
     last_insertions: Vec<(isize, usize)>,
@@ -168,6 +170,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             last_error_states: None,
             next_tokens_state: ATNSTATE_INVALID_STATE_NUMBER,
             next_tokens_ctx: None,
+            next_tokens_parents: Vec::new(),
             last_insertion_index: -1,
             last_insertions: Vec::new(),
         }
@@ -195,6 +198,7 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
     fn forget_next_tokens(&mut self) {
         self.next_tokens_state = ATNSTATE_INVALID_STATE_NUMBER;
         self.next_tokens_ctx = None;
+        self.next_tokens_parents.clear();
     }
 
     fn report_no_viable_alternative<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
@@ -515,7 +519,13 @@ impl<'a, T: Parser<'a>> ErrorStrategy<'a, T> for DefaultErrorStrategy<'a, T::Nod
         if next_tokens.contains(TOKEN_EPSILON) {
             if self.next_tokens_ctx.is_none() {
                 self.next_tokens_state = recognizer.get_state();
-                self.next_tokens_ctx = Some(recognizer.get_parser_rule_context().clone());
+                let ctx = recognizer.get_parser_rule_context().clone();
+                let mut parent = ctx.get_parent_ctx();
+                while let Some(ctx) = parent {
+                    parent = ctx.get_parent_ctx();
+                    self.next_tokens_parents.push(ctx);
+                }
+                self.next_tokens_ctx = Some(ctx);
             }
             return Ok(());
         }
-- 
2.43.0


From 016991885b2208c9eebef50780bf20b9f9fe3a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:16 +0000
Subject: [PATCH 25/32] fix: lexer states with equal hashes are told apart

---
 src/lexer_atn_simulator.rs | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 2144f87..61da469 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -691,19 +691,18 @@ impl LexerATNSimulator {
 
         let states = &mut dfa.states;
         let key = dfastate.default_hash();
-        let dfastate_index = *dfa
-            .states_map
-            .entry(key)
-            .or_insert_with(|| {
-                dfastate.state_number = states.deref().len();
-                dfastate.configs.set_read_only(true);
-                let i = dfastate.state_number;
-                //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
-                states.push(dfastate);
-                vec![i]
-            })
-            .first()
-            .unwrap();
+        // different states may have the same hash
+        let same_hash = dfa.states_map.entry(key).or_insert_with(Vec::new);
+        if let Some(&existing) = same_hash.iter().find(|&&it| states[it] == dfastate) {
+            return existing;
+        }
+
+        let dfastate_index = states.len();
+        dfastate.state_number = dfastate_index;
+        dfastate.configs.set_read_only(true);
+        //println!("inserting new DFA state {} with size {}", i, dfastate.configs.length());
+        states.push(dfastate);
+        same_hash.push(dfastate_index);
 
         //println!("new DFA state {}", dfastate_index);
 
-- 
2.43.0


From 143b1f29909877a9ad366e645e5c7230c239f53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:58 +0000
Subject: [PATCH 26/32] fix: error messages show line breaks and tabs of the
 input as escapes

---
 src/error_strategy.rs | 5 ++++-
 src/lexer.rs          | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/error_strategy.rs b/src/error_strategy.rs
index 67ba8a9..b77d323 100644
--- a/src/error_strategy.rs
+++ b/src/error_strategy.rs
@@ -215,7 +215,10 @@ impl<'input, Ctx: ParserNodeType<'input>> DefaultErrorStrategy<'input, Ctx> {
             )
         };
 
-        format!("no viable alternative at input '{}'", input)
+        format!(
+            "no viable alternative at input {}",
+            self.escape_ws_and_quote(&input)
+        )
     }
 
     fn report_input_mismatch<T: Parser<'input, Node = Ctx, TF = Ctx::TF>>(
diff --git a/src/lexer.rs b/src/lexer.rs
index d0d3800..8a638f0 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -17,6 +17,7 @@ use crate::rule_context::EmptyContextType;
 use crate::token::TOKEN_INVALID_TYPE;
 use crate::token_factory::{CommonTokenFactory, TokenAware, TokenFactory};
 use crate::token_source::TokenSource;
+use crate::utils::escape_whitespaces;
 use std::ops::{Deref, DerefMut};
 
 ///  Lexer functionality required by `LexerATNSimulator` to work properly
@@ -437,7 +438,7 @@ fn notify_listeners<'input, T, Input, TF>(
         .get_text(lexer.token_start_char_index, lexer.get_char_index());
     let text = format!(
         "token recognition error at: '{}'",
-        TF::get_data(inner).to_display()
+        escape_whitespaces(TF::get_data(inner).to_display(), false)
     );
     for listener in liseners.iter_mut() {
         listener.syntax_error(
-- 
2.43.0


From 6e6435f9a41b86ec85de1abde8b364ecfd5054b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:13 +0000
Subject: [PATCH 27/32] fix: leaving a left-recursive rule restores the
 parser's state

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 91d7973..0ae3353 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -680,6 +680,8 @@ where
             self.ctx = parent_ctx;
         }
 
+        self.set_state(retctx.get_invoking_state());
+
         //self.ctx is now parent
         retctx.set_parent(&self.ctx);
 
-- 
2.43.0


From f50d18c445bb188aa7cadd20785d80a98e31a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 28/32] fix: print predicates of DFA states and leave out the
 start states by precedence

---
 src/dfa_serializer.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dfa_serializer.rs b/src/dfa_serializer.rs
index dea3a62..b82a616 100644
--- a/src/dfa_serializer.rs
+++ b/src/dfa_serializer.rs
@@ -12,7 +12,9 @@ pub struct DFASerializer<'a, 'b> {
 impl Display for DFASerializer<'_, '_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         let dfa = &self.dfa.states;
-        for source in dfa.iter() {
+        // the first states only stand for "no edge" and, in a precedence DFA, for the start
+        // states by precedence
+        for source in dfa.iter().skip(self.first_state()) {
             for (i, edge) in source.edges.iter().copied().enumerate() {
                 if edge != 0 && edge != ERROR_DFA_STATE_REF {
                     let target = &dfa[edge];
@@ -40,17 +42,22 @@ impl DFASerializer<'_, '_> {
         }
     }
 
+    fn first_state(&self) -> usize {
+        1 + self.dfa.is_precedence_dfa() as usize
+    }
+
     fn get_state_string(&self, state: &DFAState) -> String {
         let mut base_str = format!(
             "{}s{}{}",
             if state.is_accept_state { ":" } else { "" },
-            state.state_number - 1,
+            state.state_number - self.first_state(),
             if state.requires_full_context { "^" } else { "" },
         );
         if state.is_accept_state {
             base_str = if !state.predicates.is_empty() {
-                unimplemented!()
-            //                format!("{}=>{:?}", base_str, state.predicates)
+                let predicates: Vec<String> =
+                    state.predicates.iter().map(|it| it.to_string()).collect();
+                format!("{}=>[{}]", base_str, predicates.join(", "))
             } else {
                 format!("{}=>{}", base_str, state.prediction)
             };
-- 
2.43.0


From e45a3ccb9679144db54ccdac7dd74536923ac40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:58 +0000
Subject: [PATCH 29/32] fix: separate the channel from the type in a printed
 token

---
 src/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/token.rs b/src/token.rs
index f11e7ad..20ee864 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -140,7 +140,7 @@ impl<T: Borrow<str> + Debug> Display for GenericToken<T> {
             txt,
             self.token_type,
             if self.channel > 0 {
-                self.channel.to_string()
+                format!(",channel={}", self.channel)
             } else {
                 String::new()
             },
-- 
2.43.0


From 380d72032ffde34ddf8ebff70ac34e0c0ad647dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 30/32] fix: position of an action in the middle of a token
 does not depend on earlier tokens

The offset of such an action was stored in the target of a cached DFA edge, but
the source state of the edge is reached with different numbers of characters
read, e.g. for `A: 'a'* {action} 'b';` after "ab" the action ran one character
too early for "aab". Such edges are not cached any more.
---
 src/lexer_atn_simulator.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lexer_atn_simulator.rs b/src/lexer_atn_simulator.rs
index 61da469..6ec7ebc 100644
--- a/src/lexer_atn_simulator.rs
+++ b/src/lexer_atn_simulator.rs
@@ -342,8 +342,15 @@ impl LexerATNSimulator {
             for tr in atn_state.get_transitions() {
                 if let Some(target) = tr.get_reachable_target(_t) {
                     let exec = config.get_lexer_executor().map(|x| {
-                        x.clone()
-                            .fix_offset_before_match(lexer.input().index() - self.start_index)
+                        let fixed = x
+                            .clone()
+                            .fix_offset_before_match(lexer.input().index() - self.start_index);
+                        if fixed != *x {
+                            // the offset depends on how many characters led to this DFA state,
+                            // so the edge can't be shared between tokens
+                            _reach.set_has_semantic_context(true);
+                        }
+                        fixed
                     });
 
                     let new = config.cloned_with_new_exec(self.atn().states[target].as_ref(), exec);
-- 
2.43.0


From 776f306cc762e776423cb93e469e4d89d577202b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:15 +0000
Subject: [PATCH 31/32] fix: unbuffered token stream lets go of consumed tokens

The current token is always fetched already when it is consumed, so the buffer
was never cleared unless a mark was released, and kept the whole input.
---
 src/token_stream.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/token_stream.rs b/src/token_stream.rs
index 5e6a4ff..f3913a0 100644
--- a/src/token_stream.rs
+++ b/src/token_stream.rs
@@ -210,9 +210,10 @@ impl<'input, T: TokenSource<'input>> IntStream for UnbufferedTokenStream<'input,
             panic!("cannot consume EOF");
         }
 
-        if self.p == self.tokens.len() as isize && self.markers_count == 0 {
-            self.tokens.clear();
-            self.p = -1;
+        if self.p > 0 && self.markers_count == 0 {
+            // token that is being consumed is kept for lt(-1)
+            self.tokens.drain(0..self.p as usize);
+            self.p = 0;
         }
 
         self.p += 1;
-- 
2.43.0


From fea1d568320d1f5e091fa0e299551c515634db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:37 +0000
Subject: [PATCH 32/32] fix: a new parse does not end at the token after its
 last one because an earlier parse matched EOF

matched_eof was never cleared, so every context of a parse after the input was
rewound or replaced got the token after its last one as its stop.
---
 src/parser.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 0ae3353..6a2a23c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -561,6 +561,10 @@ where
 
     /// makes `localctx` the current context, after its parent's enter event
     fn set_entered_context(&mut self, localctx: Rc<Ctx::Type>) {
+        if localctx.get_parent_ctx().is_none() {
+            // new parse, which might be on another part of the input
+            self.matched_eof = false;
+        }
         if self.enter_pending {
             self.ctx = localctx.get_parent_ctx();
             if self.ctx.is_some() {
-- 
2.43.0

