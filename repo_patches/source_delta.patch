From a201954c1fc98bac7d6338fbc0aa5ff547af469b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:33 +0000
Subject: [PATCH 01/30] fix: expand anagrams inside repetitions

An anagram under a repetition or inside a subset group (`<ab>+`, `(<ab>:-)`) was never
rewritten and reached unreachable!() while the expression was compiled.
---
 noodle/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index dbe938b..8261b46 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -219,10 +219,10 @@ impl QueryAst {
                     nodes.iter_mut().for_each(|n| visit(n, action))
                 }
                 Ast::Repetition {
-                    term: _,
+                    term,
                     min: _,
                     max: _,
-                } => (),
+                } => visit(term, action),
                 Ast::Anagram { kind: _, bank: _ } => action(node),
             }
         }
-- 
2.43.0


From 1cb6891e0cf038c305b3f3b0e52ce7ff9c188f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 02/30] fix: merging equivalent NFA states panicked when
 several states merged into one

---
 noodle/src/expression.rs | 87 ++++++++++++++++++----------------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ba1212a..c696e4d 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -337,18 +337,15 @@ impl Expression {
         // RUNTIME: O(states^3)
         fn prune_epsilon_pairs(states: &mut Vec<State>) {
             let states_len = states.len();
-            let mut state_map: Vec<_> = (0..states_len).collect();
-            let mut state_map_from: Vec<Option<usize>> = (0..states_len).map(Some).collect();
-            let mut deleted: Vec<usize> = vec![];
-            for (i, state) in states.iter().enumerate() {
-                // Shift the state index down by the number of states before it that were deleted
-                state_map[i] -= deleted.iter().filter(|&d| *d < i).count();
-
-                // Don't attempt to collapse the first state
-                // Removing it would add a lot of complexity, with little benefit
-                if i == 0 {
-                    continue;
-                }
+
+            // `state_map[i]` is the state which replaces state `i`: itself if the state is kept,
+            // otherwise a later state which is equivalent to it
+            let mut state_map: Vec<usize> = (0..states_len).collect();
+            // Iterate backwards, so that `state_map[i2]` is final when state `i < i2` is mapped to it
+            // Don't attempt to collapse the first state
+            // Removing it would add a lot of complexity, with little benefit
+            for i in (1..states_len).rev() {
+                let state = &states[i];
 
                 // Only pure-epsilon states can be removed
                 if state.char_bitset != CharBitset::EMPTY {
@@ -357,50 +354,44 @@ impl Expression {
 
                 // Look for any states that are equivalent to `state`,
                 // (except for containing the transition from itself)
+                // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i < i2`
                 // RUNTIME: O(states^2)
                 let mut similar_states = state.epsilon_states.clone();
                 similar_states.borrow_mut().remove(i);
-                for (i2, state2) in states.iter().enumerate() {
-                    // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i > i2`
-                    if i2 <= i {
-                        continue;
-                    }
-                    if similar_states == state2.epsilon_states {
-                        deleted.push(i2);
-                        state_map[i2] = i;
-                        state_map_from[i2] = None;
-                        state_map_from.iter_mut().for_each(|s| {
-                            if *s == Some(i) {
-                                *s = Some(i2)
-                            }
-                        });
-                        break;
-                    }
+                if let Some(i2) =
+                    (i + 1..states_len).find(|&i2| similar_states == states[i2].epsilon_states)
+                {
+                    state_map[i] = state_map[i2];
                 }
             }
 
-            // Re-create the state table, pruning the `deleted` states
-            // - `state_map_from[i] == None` iff `i` is in `deleted` (and the state is pruned)
-            // - Otherwise, replace the state at `i` with the state at index `state_map_from[i]`
-            // - Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
+            // Shift the indexes down by the number of states before each that were deleted
+            let is_kept: Vec<bool> = (0..states_len).map(|i| state_map[i] == i).collect();
+            let mut new_index = vec![0; states_len];
+            let mut new_states_len = 0;
+            for i in 0..states_len {
+                new_index[i] = new_states_len;
+                new_states_len += is_kept[i] as usize;
+            }
+            state_map.iter_mut().for_each(|s| *s = new_index[*s]);
+
+            // Re-create the state table without the deleted states; everywhere, change references to
+            // state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
             // RUNTIME: O(states^2)
-            let new_states_len = states_len - deleted.len();
-            state_map.iter().for_each(|&s| assert!(s < new_states_len));
-            *states = state_map_from
+            *states = states
                 .iter()
-                .filter_map(|&from| {
-                    from.map(|from_index| {
-                        let state = &states[from_index];
-                        let mut epsilon_states = BitSet1D::new((), new_states_len);
-                        for s in state.epsilon_states.borrow().ones() {
-                            epsilon_states.borrow_mut().insert(state_map[s])
-                        }
-                        State {
-                            char_bitset: state.char_bitset,
-                            next_state: state_map[state.next_state],
-                            epsilon_states,
-                        }
-                    })
+                .zip(is_kept)
+                .filter(|(_, kept)| *kept)
+                .map(|(state, _)| {
+                    let mut epsilon_states = BitSet1D::new((), new_states_len);
+                    for s in state.epsilon_states.borrow().ones() {
+                        epsilon_states.borrow_mut().insert(state_map[s])
+                    }
+                    State {
+                        char_bitset: state.char_bitset,
+                        next_state: state_map[state.next_state],
+                        epsilon_states,
+                    }
                 })
                 .collect();
         }
-- 
2.43.0


From dc6938462e08bbbae26be1ff5327fc13b057b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:01 +0000
Subject: [PATCH 03/30] fix: nested alternatives ended in the wrong NFA state

---
 noodle/src/expression.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index c696e4d..d0fc93e 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -98,17 +98,17 @@ impl Expression {
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
                     Self::build_states(alt, states);
-                    end_indexes.push(states.len() - 1);
+                    // The last state of `alt` may be reached from several places, or not exist at
+                    // all, so each alternative gets its own end state
+                    end_indexes.push(states.len());
+                    states.push(State::new());
                 }
                 let next_index = states.len();
                 for end_index in end_indexes {
-                    // Repoint the terminal states to the true success state
-                    let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.remove(end_index + 1);
-                        epsilon_states.insert(next_index);
-                    }
-                    states[end_index].next_state = next_index;
+                    // Point the end of each alternative to the true success state
+                    states[end_index]
+                        .epsilon_states_bitset_mut()
+                        .insert(next_index);
                 }
             }
             parser::Ast::Sequence(terms) => {
-- 
2.43.0


From 56f66a73a7cdf653e8982a186e72f6a4686e1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 04/30] fix: substring groups left out matches when a term did
 not end in a single state

---
 noodle/src/expression.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index d0fc93e..39bd0fa 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -125,25 +125,17 @@ impl Expression {
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
                     Self::build_states(term, states);
-                    end_indexes.push(states.len() - 1);
+                    // The last state of `term` may be reached from several places, or not exist at
+                    // all, so each term gets its own end state
+                    end_indexes.push(states.len());
+                    states.push(State::new());
                 }
                 let next_index = states.len();
                 for end_index in end_indexes {
-                    // Add the true success state to the terminal states
+                    // Each end is either followed by the next term, or by the true success state
                     let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.insert(next_index);
-                    }
-                    // Rather than have the `char_bitset` edge point to two states,
-                    // we add a epsilon transition onto the `next_state`
-                    if states[end_index].char_bitset != CharBitset::EMPTY {
-                        let next_state = states[end_index].next_state;
-                        if next_state != next_index {
-                            states[next_state]
-                                .epsilon_states_bitset_mut()
-                                .insert(next_index);
-                        }
-                    }
+                    epsilon_states.insert(end_index + 1);
+                    epsilon_states.insert(next_index);
                 }
             }
             parser::Ast::Repetition {
-- 
2.43.0


From 2f041392b8cef8c92ba3212d98410d6a522c7521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:22 +0000
Subject: [PATCH 05/30] fix: progress() divided by zero for an empty word list
 or a trivial phrase search

---
 noodle/src/matcher.rs | 2 +-
 noodle/src/query.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 71a7ca8..ec430dc 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -162,7 +162,7 @@ impl<'word> WordMatcher<'word> {
             "Single-word matches: {}/{} ({}%)",
             self.word_index,
             wordlist.len(),
-            100 * self.word_index / wordlist.len()
+            100 * self.word_index / wordlist.len().max(1)
         )
     }
 
diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index ab0819d..7aa6762 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -206,7 +206,7 @@ impl<'word> QueryEvaluator<'word> {
                     phase.depth,
                     estimate,
                     initial_search_estimate,
-                    100 * estimate / initial_search_estimate,
+                    100 * u64::from(estimate) / u64::from(*initial_search_estimate).max(1),
                     phase.tranche,
                 )
             }
-- 
2.43.0


From ef6483e8cf5975a5ae6c819d347dc82c83698415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 06/30] fix: the very last phrase of a search was not reported
 if it matched

---
 noodle/src/query.rs | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index 7aa6762..0556d4a 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -193,7 +193,10 @@ impl<'word> QueryEvaluator<'word> {
                 initial_search_estimate,
                 ..
             } => {
-                let phase = &search_queue[0];
+                let phase = match search_queue.first() {
+                    Some(phase) => phase,
+                    None => return "Done".to_string(),
+                };
                 let step_index = &search_layers[0].word_index;
 
                 let estimate = search_estimate(search_queue);
@@ -502,6 +505,16 @@ impl<'word> QueryEvaluator<'word> {
                 let mut deadline_check_count = 0;
                 let mut result = None;
                 loop {
+                    if search_queue.is_empty() {
+                        // If the depth queue is empty, we're done for good!
+                        // Signal that the iterator is exhausted
+                        self.phase = QueryPhase::Done;
+                        return QueryResponse::Complete(format!(
+                            "Complete, found all {} phrases up to {} words",
+                            self.results_count, self.search_depth_limit
+                        ));
+                    }
+
                     let search_phase = &search_queue[0];
                     let (lower_layers, upper_layers) = search_layers.split_at_mut(*layer_index + 1);
                     let prev_layer = &mut lower_layers[*layer_index];
@@ -592,22 +605,13 @@ impl<'word> QueryEvaluator<'word> {
                                         });
                                     }
 
-                                    if search_queue.is_empty() {
-                                        // If the depth queue is empty, we're done for good!
-                                        // Signal that the iterator is exhausted
-                                        self.phase = QueryPhase::Done;
-                                        return QueryResponse::Complete(format!(
-                                            "Complete, found all {} phrases up to {} words",
-                                            self.results_count, self.search_depth_limit
-                                        ));
-                                    } else {
-                                        // Otherwise, restart at the first layer with the new depth
-                                        *phase_had_partial_match = false;
-                                        search_layers[*layer_index].word_index = 0;
-                                        search_layers[*layer_index].max_tranche =
-                                            wordlist[0].tranche;
-                                        break;
-                                    }
+                                    // Restart at the first layer with the new depth, if there is one
+                                    // (The very last phrase may have been a match, so that needs to
+                                    // be returned before signalling that the search is complete)
+                                    *phase_had_partial_match = false;
+                                    search_layers[*layer_index].word_index = 0;
+                                    search_layers[*layer_index].max_tranche = wordlist[0].tranche;
+                                    break;
                                 }
 
                                 // Ascend back to the previous layer (perhaps recursively!)
-- 
2.43.0


From 2d21bc77964852b66cb7758217a8f72f62d3b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 07/30] fix: fuzzy matches missed letters dropped at the end of
 the text or in a row

---
 noodle/src/expression.rs | 42 +++++++++++++++++++++++++++++++---------
 noodle/src/matcher.rs    | 11 +++--------
 2 files changed, 36 insertions(+), 17 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 39bd0fa..1816fc9 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -510,10 +510,6 @@ impl Expression {
                     let mut fuzzed_next_state_transitions =
                         upper_table[0].slice_mut((state_index, fuzz_index + 1));
 
-                    if state_transitions.is_empty() {
-                        continue;
-                    }
-
                     // Deletion
                     fuzzed_next_state_transitions.union_with(state_transitions);
 
@@ -524,15 +520,15 @@ impl Expression {
                     fuzzed_next_state_transitions.union_with(change_set);
 
                     // Insertion
-                    let insertion_set_group = self.char_transitions(char_bitset, change_set);
-                    let insertion_set = insertion_set_group.slice(());
-                    fuzzed_next_state_transitions.union_with(insertion_set);
+                    self.fill_insertions(&mut upper_table[0], state_index, fuzz_index);
 
                     // Optimization: discard the states we can get to with less fuzz
-                    fuzzed_next_state_transitions.difference_with(fuzz_superset.borrow());
                     fuzz_superset
                         .borrow_mut()
-                        .union_with(fuzzed_next_state_transitions.reborrow());
+                        .union_with(upper_table[0].slice((state_index, fuzz_index)));
+                    upper_table[0]
+                        .slice_mut((state_index, fuzz_index + 1))
+                        .difference_with(fuzz_superset.borrow());
                 }
             }
             if all_states_are_empty {
@@ -542,6 +538,34 @@ impl Expression {
         chars.len()
     }
 
+    /// Initialize the state transition table for an empty string, which only has epsilon
+    /// transitions and (with fuzz) insertions. See `fill_transition_table`
+    ///
+    /// `RUNTIME: O(fuzz * states^3)`
+    pub fn init_transition_table(&self, table: &mut BitSet3D) {
+        table.borrow_mut().clear();
+        for src in 0..self.states.len() {
+            table
+                .slice_mut((src, 0))
+                .union_with(self.epsilon_states(src));
+            for fuzz_index in 0..self.fuzz {
+                self.fill_insertions(table, src, fuzz_index);
+            }
+        }
+    }
+
+    /// Expand `table[src][fuzz+1]` by adding all states reachable from `table[src][fuzz]`
+    /// by inserting 1 character, i.e. without consuming any
+    ///
+    /// `RUNTIME: O(states^2)`
+    fn fill_insertions(&self, table: &mut BitSet3D, src: usize, fuzz_index: usize) {
+        let insertion_set =
+            self.char_transitions(CharBitset::LETTERS, table.slice((src, fuzz_index)));
+        table
+            .slice_mut((src, fuzz_index + 1))
+            .union_with(insertion_set.borrow());
+    }
+
     /// Given a set of starting states `start_states`, calculate the set of states reachable by
     /// consuming exactly one character from `char_bitset` (followed by epsilon transition(s))
     ///
diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index ec430dc..3f18eb9 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -227,14 +227,9 @@ impl<'word> WordMatcher<'word> {
 
             // If there is no common prefix, clear the table & populate with initial state
             if prefix_len == 0 {
-                prefixed_table[0].borrow_mut().clear();
-                for src in 0..states_len {
-                    // After consuming 0 chars (and 0 fuzz), the only states reachable from state
-                    // `src` are its epsilon transitions
-                    prefixed_table[0]
-                        .slice_mut((src, 0))
-                        .union_with(self.phrase_matcher.expression.epsilon_states(src));
-                }
+                self.phrase_matcher
+                    .expression
+                    .init_transition_table(&mut prefixed_table[0]);
             }
 
             // Fill the table, but this can return early if the chars are not a match
-- 
2.43.0


From efddcf161e017b63529107b2b9c6bb527c4e62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 08/30] fix: the NFA optimizer merged states which were not
 equivalent

---
 noodle/src/expression.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 1816fc9..88871cd 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -235,6 +235,8 @@ impl Expression {
         //      - Itself
         //      - The char state
         //      - The epsilon_states of the char state's next state
+        //  - The char state can only be reached from states which can also reach everything
+        //    that the epsilon state can
         // This could be more generic if states supported an arbitrary set of edges
         // TODO: this code is pretty inefficient
         // RUNTIME: O(states^3)?
@@ -274,6 +276,20 @@ impl Expression {
                         .contains(char_state.next_state)
                     // ...but point to at most: itself, char_state, and char_state.next_state's epsilons
                     && eps_state.epsilon_states.borrow().is_subset(&allowed_epsilons.borrow())
+                    // Any other state which points to char_state will instead point to eps_state,
+                    // so it must already be able to reach the same states
+                    && states.iter().enumerate().all(|(i, state)| {
+                        let mut reachable = state.epsilon_states.clone();
+                        reachable.borrow_mut().insert(eps_index);
+                        i == char_index
+                            || (state.char_bitset == CharBitset::EMPTY
+                                || state.next_state != char_index)
+                                && (!state.epsilon_states.borrow().contains(char_index)
+                                    || eps_state
+                                        .epsilon_states
+                                        .borrow()
+                                        .is_subset(&reachable.borrow()))
+                    })
             }
 
             // RUNTIME: O(states^2)
-- 
2.43.0


From 112b5d3ee7380c912b87b59de006844b2c14d3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:50 +0000
Subject: [PATCH 09/30] fix: parsing nested groups took exponential time

---
 noodle/src/noodle_grammar.pest |  37 +++---
 noodle/src/parser.rs           | 218 +++++++++++++++++++++------------
 2 files changed, 160 insertions(+), 95 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 486f01c..677c912 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -18,27 +18,29 @@ invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
 anagram_body = { ASCII_ALPHA+ }
 
-sequence = { (repeat | term)+ }
-alternatives = { sequence ~ ("|" ~ sequence)+ }
+sequence = { repeat+ }
 anagram = { "<" ~ anagram_body ~ ">" }
 superanagram = { "<" ~ anagram_body ~ "+>" }
 subanagram = { "<" ~ anagram_body ~ "->" }
 transadd = { "<" ~ anagram_body ~ "+" ~ number ~ ">" }
 transdelete = { "<" ~ anagram_body ~ "-" ~ number ~ ">" }
-substring = { "(" ~ term+ ~ ":^)" }
-subset = { "(" ~ term+ ~ ":-)" }
-superset = { "(" ~ term+ ~ ":+)" }
+substring = { ":^)" }
+subset = { ":-)" }
+superset = { ":+)" }
 
-repeat_optional = { term ~ "?" }
-repeat_any = { term ~ "*" }
-repeat_oneormore = { term ~ "+" }
-repeat_atmost = { term ~ "{," ~ number ~ "}" }
-repeat_exact = { term ~ "{" ~ number ~ "}" }
-repeat_atleast = { term ~ "{" ~ number ~ ",}" }
-repeat_range = { term ~ "{" ~ number ~ "," ~ number ~ "}" }
+// These follow the `term` that they repeat
+repeat_optional = { "?" }
+repeat_any = { "*" }
+repeat_oneormore = { "+" }
+repeat_atmost = { "{," ~ number ~ "}" }
+repeat_exact = { "{" ~ number ~ "}" }
+repeat_atleast = { "{" ~ number ~ ",}" }
+repeat_range = { "{" ~ number ~ "," ~ number ~ "}" }
 
-subexpression = _{ (alternatives | sequence) }
-group = _{ "(" ~ subexpression ~ ")" }
+// The parser doesn't memoize anything, so that nested terms must not be tried repeatedly by
+// different rules: that would take exponential time
+subexpression = _{ sequence ~ ("|" ~ sequence)* }
+group = { "(" ~ subexpression ~ (")" | substring | subset | superset) }
 term = _{
       class
     | dot
@@ -48,13 +50,10 @@ term = _{
     | subanagram
     | transadd
     | transdelete
-    | substring
-    | subset
-    | superset
     | number
     | character
 }
-repeat = _{
+repeat_suffix = _{
     repeat_optional |
     repeat_any |
     repeat_oneormore |
@@ -63,7 +62,7 @@ repeat = _{
     repeat_atleast |
     repeat_range
 }
-
+repeat = _{ term ~ repeat_suffix? }
 
 
 option_word_boundaries = { "!_" }
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 8261b46..1117560 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,6 +1,6 @@
 use crate::words::*;
 use indexmap::IndexMap;
-use pest::error::{Error as PestError, LineColLocation};
+use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
 use pest::Parser;
 use std::fmt;
@@ -81,7 +81,7 @@ impl ExpressionAst {
             .next()
             .unwrap();
 
-        Ok(parse_expression(pair))
+        parse_expression(pair)
     }
 }
 
@@ -148,7 +148,7 @@ impl QueryAst {
             if let Some(pair) = pair.next() {
                 match pair.as_rule() {
                     Rule::expression => {
-                        let expr = parse_expression(pair);
+                        let expr = parse_expression(pair).map_err(|e| error_set_line(e, i + 1))?;
                         expressions.push(expr);
                     }
                     Rule::pragma_words => {
@@ -485,6 +485,29 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
         .collect()
 }
 
+/// Check the syntax that the grammar doesn't check on its own
+fn check_pair(pair: &Pair<Rule>) -> Result<()> {
+    let error = |message: &str| {
+        Err(PestError::new_from_span(
+            ErrorVariant::CustomError {
+                message: message.to_string(),
+            },
+            pair.as_span(),
+        ))
+    };
+    if pair.as_rule() == Rule::group {
+        // Substrings, subsets & supersets can only be made up of terms
+        let mut pairs = pair.clone().into_inner();
+        let mut first = pairs.next().unwrap().into_inner();
+        let is_partial = pairs.clone().any(|p| p.as_rule() != Rule::sequence);
+        let is_alternatives = pairs.any(|p| p.as_rule() == Rule::sequence);
+        if is_partial && (is_alternatives || first.any(|p| is_repeat_suffix(p.as_rule()))) {
+            return error("a partial group can't directly contain repetitions or alternatives");
+        }
+    }
+    pair.clone().into_inner().try_for_each(|p| check_pair(&p))
+}
+
 /// Given the contents of an anagram-like rule, return a tuple containing the parsed contents of
 /// the `anagram_body` & `number` rules.
 /// The outer `pairs` *must* either be `[Rule::anagram_body]` or `[Rule::anagram_body, Rule::number]`
@@ -530,46 +553,24 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             }
             Some(Ast::CharClass(bitset))
         }
-        Rule::subset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .map(|c| Ast::Repetition {
-                    term: Box::new(c),
-                    min: 0,
-                    max: Some(1),
-                })
-                .collect(),
-        )),
-        Rule::superset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .flat_map(|c| {
-                    vec![
-                        Ast::Repetition {
-                            term: Box::new(Ast::CharClass(CharBitset::ALL)),
-                            min: 0,
-                            max: None,
-                        },
-                        c,
-                    ]
-                    .into_iter()
-                })
-                .chain(std::iter::once(Ast::Repetition {
-                    term: Box::new(Ast::CharClass(CharBitset::ALL)),
-                    min: 0,
-                    max: None,
-                }))
-                .collect(),
-        )),
-        Rule::substring => Some(Ast::Substring(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
-        Rule::group => Some(Ast::Sequence(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
-        Rule::sequence => Some(Ast::Sequence(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
+        Rule::group => {
+            let mut sequences = vec![];
+            let mut kind = None;
+            for inner in pair.into_inner() {
+                match inner.as_rule() {
+                    Rule::sequence => sequences.push(inner),
+                    rule => kind = Some(rule),
+                }
+            }
+            match kind {
+                None => parse_alternatives(sequences),
+                Some(kind) => {
+                    let terms = parse_terms(sequences.remove(0).into_inner());
+                    Some(ast_for_partial_group(kind, terms))
+                }
+            }
+        }
+        Rule::sequence => Some(Ast::Sequence(parse_terms(pair.into_inner()))),
         Rule::number => {
             let dot = Ast::CharClass(CharBitset::LETTERS);
             let n: usize = pair.as_str().parse().unwrap();
@@ -582,28 +583,6 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 Ast::CharClass(Char::WORD_END.into()),
             ]))
         }
-        Rule::repeat_optional
-        | Rule::repeat_any
-        | Rule::repeat_oneormore
-        | Rule::repeat_exact
-        | Rule::repeat_atmost
-        | Rule::repeat_atleast
-        | Rule::repeat_range => {
-            let mut pairs = pair.into_inner();
-            let term = Box::new(pairs.next().and_then(parse_term).unwrap());
-            let numbers = parse_numbers(pairs);
-            let (min, max) = match rule {
-                Rule::repeat_optional => (0, Some(1)),
-                Rule::repeat_any => (0, None),
-                Rule::repeat_oneormore => (1, None),
-                Rule::repeat_exact => (numbers[0], Some(numbers[0])),
-                Rule::repeat_atmost => (0, Some(numbers[0])),
-                Rule::repeat_atleast => (numbers[0], None),
-                Rule::repeat_range => (numbers[0], Some(numbers[1])),
-                _ => unreachable!(),
-            };
-            Some(Ast::Repetition { term, min, max })
-        }
         Rule::anagram | Rule::subanagram | Rule::superanagram => {
             let (bank, number) = parse_anagram(pair.into_inner());
             assert!(number.is_none());
@@ -635,14 +614,99 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 bank,
             })
         }
-        Rule::alternatives => Some(Ast::Alternatives(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
-
         _ => None,
     }
 }
 
+/// Parse the alternatives of a `Rule::subexpression` (there is only one if it has no `|`)
+fn parse_alternatives(mut sequences: Vec<Pair<Rule>>) -> Option<Ast> {
+    if sequences.len() == 1 {
+        parse_term(sequences.remove(0))
+    } else {
+        Some(Ast::Alternatives(
+            sequences.into_iter().filter_map(parse_term).collect(),
+        ))
+    }
+}
+
+fn is_repeat_suffix(rule: Rule) -> bool {
+    matches!(
+        rule,
+        Rule::repeat_optional
+            | Rule::repeat_any
+            | Rule::repeat_oneormore
+            | Rule::repeat_exact
+            | Rule::repeat_atmost
+            | Rule::repeat_atleast
+            | Rule::repeat_range
+    )
+}
+
+/// Parse the contents of a `Rule::sequence`, in which each term may be followed by a repetition
+fn parse_terms(pairs: Pairs<Rule>) -> Vec<Ast> {
+    let mut terms = vec![];
+    for pair in pairs {
+        match pair.as_rule() {
+            rule if is_repeat_suffix(rule) => {
+                let term = Box::new(terms.pop().unwrap());
+                let numbers = parse_numbers(pair.into_inner());
+                let (min, max) = match rule {
+                    Rule::repeat_optional => (0, Some(1)),
+                    Rule::repeat_any => (0, None),
+                    Rule::repeat_oneormore => (1, None),
+                    Rule::repeat_exact => (numbers[0], Some(numbers[0])),
+                    Rule::repeat_atmost => (0, Some(numbers[0])),
+                    Rule::repeat_atleast => (numbers[0], None),
+                    Rule::repeat_range => (numbers[0], Some(numbers[1])),
+                    _ => unreachable!(),
+                };
+                terms.push(Ast::Repetition { term, min, max });
+            }
+            _ => terms.extend(parse_term(pair)),
+        }
+    }
+    terms
+}
+
+/// Build an AST for a subset, superset or substring of the given terms
+fn ast_for_partial_group(kind: Rule, terms: Vec<Ast>) -> Ast {
+    match kind {
+        Rule::subset => Ast::Sequence(
+            terms
+                .into_iter()
+                .map(|c| Ast::Repetition {
+                    term: Box::new(c),
+                    min: 0,
+                    max: Some(1),
+                })
+                .collect(),
+        ),
+        Rule::superset => Ast::Sequence(
+            terms
+                .into_iter()
+                .flat_map(|c| {
+                    vec![
+                        Ast::Repetition {
+                            term: Box::new(Ast::CharClass(CharBitset::ALL)),
+                            min: 0,
+                            max: None,
+                        },
+                        c,
+                    ]
+                    .into_iter()
+                })
+                .chain(std::iter::once(Ast::Repetition {
+                    term: Box::new(Ast::CharClass(CharBitset::ALL)),
+                    min: 0,
+                    max: None,
+                }))
+                .collect(),
+        ),
+        Rule::substring => Ast::Substring(terms),
+        _ => unreachable!(),
+    }
+}
+
 /// Given a list of pairs from the "end" of a `Rule::expression` (after the `Rule::subexpression` term),
 /// extract the option flags into an `ExpressionOptions` struct.
 fn parse_options(pairs: Pairs<'_, Rule>) -> ExpressionOptions {
@@ -699,20 +763,22 @@ fn detect_options(ast: &Ast, options: &mut ExpressionOptions) {
 }
 
 /// Build an AST for the given `Rule::expression`
-fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
+fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     assert_eq!(pair.as_rule(), Rule::expression);
 
+    check_pair(&pair)?;
+
     let mut pairs = pair.into_inner();
-    let subexpression = pairs.next().unwrap();
-    assert!(
-        subexpression.as_rule() == Rule::sequence || subexpression.as_rule() == Rule::alternatives
-    );
+    let mut sequences = vec![];
+    while pairs.peek().map(|p| p.as_rule()) == Some(Rule::sequence) {
+        sequences.extend(pairs.next());
+    }
 
-    let ast = parse_term(subexpression).unwrap();
+    let ast = parse_alternatives(sequences).unwrap();
     let mut options = parse_options(pairs);
     detect_options(&ast, &mut options);
 
-    ExpressionAst { root: ast, options }
+    Ok(ExpressionAst { root: ast, options })
 }
 
 // TODO: Investigate proptest?
-- 
2.43.0


From 059e7e872a6195859bc1dfdabbf8b61e83c817be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 10/30] fix: numbers which are too large and reversed ranges
 crashed instead of being parse errors

---
 noodle/src/parser.rs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 1117560..b480d95 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -80,8 +80,9 @@ impl ExpressionAst {
         let pair = NoodleParser::parse(Rule::expression, input_str)?
             .next()
             .unwrap();
+        check_pair(&pair)?;
 
-        parse_expression(pair)
+        Ok(parse_expression(pair))
     }
 }
 
@@ -146,9 +147,10 @@ impl QueryAst {
                 .into_inner();
 
             if let Some(pair) = pair.next() {
+                check_pair(&pair).map_err(|e| error_set_line(e, i + 1))?;
                 match pair.as_rule() {
                     Rule::expression => {
-                        let expr = parse_expression(pair).map_err(|e| error_set_line(e, i + 1))?;
+                        let expr = parse_expression(pair);
                         expressions.push(expr);
                     }
                     Rule::pragma_words => {
@@ -485,7 +487,7 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
         .collect()
 }
 
-/// Check the syntax that the grammar doesn't check on its own
+/// Check the syntax that the grammar doesn't check on its own, and that the numbers are valid
 fn check_pair(pair: &Pair<Rule>) -> Result<()> {
     let error = |message: &str| {
         Err(PestError::new_from_span(
@@ -495,6 +497,17 @@ fn check_pair(pair: &Pair<Rule>) -> Result<()> {
             pair.as_span(),
         ))
     };
+    if pair.as_rule() == Rule::number && pair.as_str().parse::<usize>().is_err() {
+        return error("number is too large");
+    }
+    if pair.as_rule() == Rule::repeat_range {
+        let numbers = parse_numbers(pair.clone().into_inner());
+        if let [min, max] = numbers[..] {
+            if min > max {
+                return error("the minimum is greater than the maximum");
+            }
+        }
+    }
     if pair.as_rule() == Rule::group {
         // Substrings, subsets & supersets can only be made up of terms
         let mut pairs = pair.clone().into_inner();
@@ -763,11 +776,9 @@ fn detect_options(ast: &Ast, options: &mut ExpressionOptions) {
 }
 
 /// Build an AST for the given `Rule::expression`
-fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
+fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
     assert_eq!(pair.as_rule(), Rule::expression);
 
-    check_pair(&pair)?;
-
     let mut pairs = pair.into_inner();
     let mut sequences = vec![];
     while pairs.peek().map(|p| p.as_rule()) == Some(Rule::sequence) {
@@ -778,7 +789,7 @@ fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     let mut options = parse_options(pairs);
     detect_options(&ast, &mut options);
 
-    Ok(ExpressionAst { root: ast, options })
+    ExpressionAst { root: ast, options }
 }
 
 // TODO: Investigate proptest?
-- 
2.43.0


From f4733d45944d260fa913f2f50601ea0932420ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 11/30] fix: a query without any expressions crashed instead of
 being a parse error

---
 noodle/src/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index b480d95..27a08b5 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -2,7 +2,7 @@ use crate::words::*;
 use indexmap::IndexMap;
 use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
-use pest::Parser;
+use pest::{Parser, Position};
 use std::fmt;
 
 pub type Result<T> = std::result::Result<T, PestError<Rule>>;
@@ -190,6 +190,14 @@ impl QueryAst {
                 }
             }
         }
+        if expressions.is_empty() {
+            return Err(PestError::new_from_pos(
+                ErrorVariant::CustomError {
+                    message: "query does not contain any expressions".to_string(),
+                },
+                Position::from_start(input_str),
+            ));
+        }
         if let Some(mut wl) = wordlist {
             wl.sort();
             options.wordlist = Some(wl);
-- 
2.43.0


From 30f452c168dad4befcc4798dc055e45f77b589a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:53 +0000
Subject: [PATCH 12/30] fix: a complicated query could exhaust the memory or
 the stack

---
 noodle/src/parser.rs | 145 +++++++++++++++++++++++++++++++++++++++++--
 noodle/src/words.rs  |   4 ++
 2 files changed, 143 insertions(+), 6 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 27a08b5..bae851e 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -11,6 +11,22 @@ pub type Result<T> = std::result::Result<T, PestError<Rule>>;
 #[grammar = "noodle_grammar.pest"]
 struct NoodleParser;
 
+// Limits on how complicated a query can be. A single query could otherwise exhaust the memory or
+// the stack, which can't be recovered from.
+
+/// Maximum length of a line (other than a wordlist), once its macros have been expanded
+const MAX_LINE_LEN: usize = 64 * 1024;
+/// Maximum length of a word in `#wordlist`
+const MAX_WORD_LEN: usize = 256;
+/// Maximum number of macros
+const MAX_MACROS: usize = 1000;
+/// Maximum nesting of groups
+const MAX_NESTING: usize = 100;
+/// Maximum value of `#words`
+const MAX_WORDS: usize = 100;
+/// Maximum size of the transition tables of all expressions: `O(states^2 * fuzz)` for each
+const MAX_TABLE_SIZE: usize = 8 * 1024 * 1024;
+
 /// A query is a representation of whole input sent to Noodle. It may be made up of
 /// multiple expressions, and also contains global options like which wordlist to use.
 /// This is used to build a `matcher::Matcher`
@@ -77,12 +93,78 @@ pub enum AnagramKind {
 
 impl ExpressionAst {
     pub fn new_from_str(input_str: &str) -> Result<Self> {
+        check_line(input_str)?;
         let pair = NoodleParser::parse(Rule::expression, input_str)?
             .next()
             .unwrap();
         check_pair(&pair)?;
 
-        Ok(parse_expression(pair))
+        let expression = parse_expression(pair);
+        if expression.table_size() > MAX_TABLE_SIZE {
+            return Err(custom_error("expression is too complicated", input_str));
+        }
+        Ok(expression)
+    }
+
+    /// Upper bound for the size of the transition table(s) for this expression
+    fn table_size(&self) -> usize {
+        // The success state, and some allowance for the fixed costs of every expression
+        let states = self.root.states().saturating_add(1);
+        let fuzz = self.options.fuzz.unwrap_or(0).saturating_add(1);
+        let expressions = self.root.expanded_expressions();
+        states
+            .saturating_mul(states)
+            .saturating_mul(fuzz)
+            .saturating_add(1024)
+            .saturating_mul(expressions)
+    }
+}
+
+impl Ast {
+    /// Upper bound for the number of states which are needed to represent this node
+    fn states(&self) -> usize {
+        let sum = |nodes: &[Self], extra: usize| {
+            nodes.iter().fold(1, |sum: usize, node| {
+                sum.saturating_add(node.states()).saturating_add(extra)
+            })
+        };
+        match self {
+            Ast::CharClass(_) => 1,
+            Ast::Sequence(nodes) => sum(nodes, 0),
+            Ast::Alternatives(nodes) | Ast::Substring(nodes) => sum(nodes, 1),
+            Ast::Repetition { term, min, max } => {
+                let repeats = max.unwrap_or(*min).max(1);
+                term.states().saturating_mul(repeats).saturating_add(2)
+            }
+            Ast::Anagram { kind, bank } => {
+                let added = match kind {
+                    AnagramKind::TransAdd(n) => *n,
+                    _ => 0,
+                };
+                bank.len()
+                    .saturating_mul(6)
+                    .saturating_add(added)
+                    .saturating_add(8)
+            }
+        }
+    }
+
+    /// Number of expressions this node is expanded into, see `QueryAst::expand_expressions`
+    fn expanded_expressions(&self) -> usize {
+        match self {
+            Ast::CharClass(_) => 1,
+            Ast::Alternatives(nodes) | Ast::Sequence(nodes) | Ast::Substring(nodes) => nodes
+                .iter()
+                .map(Self::expanded_expressions)
+                .max()
+                .unwrap_or(1),
+            Ast::Repetition { term, .. } => term.expanded_expressions(),
+            Ast::Anagram { bank, .. } => {
+                let mut letters = CharBitset::EMPTY;
+                bank.iter().for_each(|c| letters.union_with(c.into()));
+                letters.len() + 1
+            }
+        }
     }
 }
 
@@ -114,6 +196,7 @@ impl QueryAst {
             wordlist: None,
         };
         let mut wordlist: Option<Vec<Word>> = None;
+        let mut table_size: usize = 0;
 
         fn error_set_line(mut err: PestError<Rule>, line: usize) -> PestError<Rule> {
             match &mut err.line_col {
@@ -129,15 +212,26 @@ impl QueryAst {
         for (i, line) in input_str.split(&['\n', ';'][..]).enumerate() {
             if let Some(ref mut wl) = wordlist {
                 let line = line.trim();
+                if line.len() > MAX_WORD_LEN {
+                    let err = custom_error("word is too long", "");
+                    return Err(error_set_line(err, i + 1));
+                }
                 if !line.is_empty() {
                     wl.push(Word::new(line, 1, i as u32));
                 }
                 continue;
             }
 
+            check_line(line).map_err(|e| error_set_line(e, i + 1))?;
             let mut line = line.to_owned();
             for (macro_name, macro_value) in macros.iter() {
+                let added = line.matches(macro_name.as_str()).count() * macro_value.len();
+                if line.len() + added > 2 * MAX_LINE_LEN {
+                    let err = custom_error("line is too long", "");
+                    return Err(error_set_line(err, i + 1));
+                }
                 line = line.replace(macro_name, macro_value);
+                check_line(&line).map_err(|e| error_set_line(e, i + 1))?;
             }
 
             let mut pair = NoodleParser::parse(Rule::query, &line)
@@ -151,12 +245,21 @@ impl QueryAst {
                 match pair.as_rule() {
                     Rule::expression => {
                         let expr = parse_expression(pair);
+                        table_size = table_size.saturating_add(expr.table_size());
+                        if table_size > MAX_TABLE_SIZE {
+                            let err = custom_error("query is too complicated", &line);
+                            return Err(error_set_line(err, i + 1));
+                        }
                         expressions.push(expr);
                     }
                     Rule::pragma_words => {
                         let inner = pair.into_inner();
                         let numbers = parse_numbers(inner);
                         options.max_words = numbers.get(0).cloned();
+                        if options.max_words > Some(MAX_WORDS) {
+                            let err = custom_error("too many words", &line);
+                            return Err(error_set_line(err, i + 1));
+                        }
                     }
                     Rule::pragma_dict => {
                         let inner = pair.into_inner();
@@ -184,6 +287,10 @@ impl QueryAst {
                             .collect();
                         // TODO: Maybe check if it's unique? Or not use a hashmap at all?
                         macros.insert(terms[0].to_owned(), terms[1].to_owned());
+                        if macros.len() > MAX_MACROS {
+                            let err = custom_error("too many macros", &line);
+                            return Err(error_set_line(err, i + 1));
+                        }
                     }
                     Rule::EOI => (),
                     _ => println!("Unexpected: {:?}", pair),
@@ -191,11 +298,9 @@ impl QueryAst {
             }
         }
         if expressions.is_empty() {
-            return Err(PestError::new_from_pos(
-                ErrorVariant::CustomError {
-                    message: "query does not contain any expressions".to_string(),
-                },
-                Position::from_start(input_str),
+            return Err(custom_error(
+                "query does not contain any expressions",
+                input_str,
             ));
         }
         if let Some(mut wl) = wordlist {
@@ -495,6 +600,34 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
         .collect()
 }
 
+fn custom_error(message: &str, line: &str) -> PestError<Rule> {
+    PestError::new_from_pos(
+        ErrorVariant::CustomError {
+            message: message.to_string(),
+        },
+        Position::from_start(line),
+    )
+}
+
+/// Check that the parser will be able to handle the line
+fn check_line(line: &str) -> Result<()> {
+    if line.len() > MAX_LINE_LEN {
+        return Err(custom_error("line is too long", ""));
+    }
+    let mut nesting: usize = 0;
+    for c in line.chars() {
+        match c {
+            '(' => nesting += 1,
+            ')' => nesting = nesting.saturating_sub(1),
+            _ => {}
+        }
+        if nesting > MAX_NESTING {
+            return Err(custom_error("groups are nested too deeply", line));
+        }
+    }
+    Ok(())
+}
+
 /// Check the syntax that the grammar doesn't check on its own, and that the numbers are valid
 fn check_pair(pair: &Pair<Rule>) -> Result<()> {
     let error = |message: &str| {
diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index c57b864..1dbe331 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -100,6 +100,10 @@ impl CharBitset {
         (self.0 & other.0) != 0
     }
 
+    pub fn len(&self) -> usize {
+        self.0.count_ones() as usize
+    }
+
     pub fn contains(&self, chr: Char) -> bool {
         self.is_intersecting(chr.into())
     }
-- 
2.43.0


From 61bd7e0155034ebbe50e8021bb5bd20d112b64de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 13/30] fix: expressions after the first were evaluated without
 checking the deadline

---
 noodle/src/matcher.rs | 10 +++++++
 noodle/src/query.rs   | 64 +++++++++++++++++++++++++------------------
 2 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 3f18eb9..c1deb0c 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -170,6 +170,16 @@ impl<'word> WordMatcher<'word> {
         &self.phrase_matcher.expression
     }
 
+    /// Have all of the words in `wordlist` been processed?
+    pub fn is_finished(&self, wordlist: &[Word]) -> bool {
+        self.word_index >= wordlist.len()
+    }
+
+    /// The prefix of `wordlist` with at most `size` words that have not been processed yet
+    pub fn next_batch<'a>(&self, wordlist: &'a [Word], size: usize) -> &'a [Word] {
+        &wordlist[..wordlist.len().min(self.word_index + size)]
+    }
+
     pub fn filter_search_phases(&self, search_phases: &mut Vec<SearchPhase>) {
         self.phrase_matcher.filter_search_phases(search_phases)
     }
diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index 0556d4a..719ae98 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -85,6 +85,9 @@ struct SearchLayer {
     table_matcher_fuzz_dst: BitSet3D,
 }
 
+/// Number of steps to perform between checking the clock
+const DEADLINE_CHECK_INTERVAL: usize = 256;
+
 // --
 
 fn search_estimate(search_phases: &[SearchPhase]) -> u32 {
@@ -236,24 +239,41 @@ impl<'word> QueryEvaluator<'word> {
                 // Check for single-word matches
                 let (first_matcher, remaining_matchers) = matchers.split_at_mut(1);
 
-                // Iterate over every word which satisfies the first matcher...
-                while let Some(word) =
-                    first_matcher[0].next_single_word(*wordlist, single_word_only, deadline)
-                {
-                    // ...then have all of the remaining matchers consume the (growing) `alive_wordlist`
-                    // The `alive_wordlist` of matcher `i` is fed into matcher `i+1`
-                    let mut wordlist = &first_matcher[0].alive_wordlist;
-                    let mut all_match = true;
+                // Evaluate the wordlist in batches, so that the remaining matchers can't fall far behind
+                while !first_matcher[0].is_finished(*wordlist) {
+                    let batch = first_matcher[0].next_batch(*wordlist, DEADLINE_CHECK_INTERVAL);
+
+                    // Iterate over every word which satisfies the first matcher...
+                    while let Some(word) =
+                        first_matcher[0].next_single_word(batch, single_word_only, deadline)
+                    {
+                        // ...then have all of the remaining matchers consume the (growing) `alive_wordlist`
+                        // The `alive_wordlist` of matcher `i` is fed into matcher `i+1`
+                        let mut wordlist = &first_matcher[0].alive_wordlist;
+                        let mut all_match = true;
+                        for matcher in remaining_matchers.iter_mut() {
+                            let last_word = matcher.iter(wordlist, single_word_only, None).last();
+                            all_match = all_match && (last_word == Some(word));
+                            wordlist = &matcher.alive_wordlist;
+                        }
+
+                        // A single word is match if it is returned by every matcher's iterator
+                        if all_match {
+                            self.results_count += 1;
+                            return QueryResponse::Match(vec![word.clone()]);
+                        }
+                    }
+
+                    // Process the rest of the batch to populate phrase-matching data, even though
+                    // they won't yield any single-word matches
+                    let mut alive_wordlist = &first_matcher[0].alive_wordlist;
                     for matcher in remaining_matchers.iter_mut() {
-                        let last_word = matcher.iter(wordlist, single_word_only, None).last();
-                        all_match = all_match && (last_word == Some(word));
-                        wordlist = &matcher.alive_wordlist;
+                        let _ = matcher.iter(alive_wordlist, single_word_only, None).count();
+                        alive_wordlist = &matcher.alive_wordlist;
                     }
 
-                    // A single word is match if it is returned by every matcher's iterator
-                    if all_match {
-                        self.results_count += 1;
-                        return QueryResponse::Match(vec![word.clone()]);
+                    if deadline.is_some() && Some(Instant::now()) > deadline {
+                        return QueryResponse::Timeout;
                     }
                 }
                 if deadline.is_some() && Some(Instant::now()) > deadline {
@@ -271,17 +291,7 @@ impl<'word> QueryEvaluator<'word> {
 
                 let mut log_messages = vec![];
 
-                // Process remaining words to populate phrase-matching data, even though they won't yield any single-word matches
-                let mut alive_wordlist = {
-                    let mut wordlist = &first_matcher[0].alive_wordlist;
-                    for matcher in remaining_matchers.iter_mut() {
-                        let _ = matcher.iter(wordlist, false, None).count();
-                        wordlist = &matcher.alive_wordlist;
-                    }
-
-                    wordlist
-                }
-                .clone();
+                let mut alive_wordlist = matchers.last().unwrap().alive_wordlist.clone();
 
                 let mut tranches = alive_wordlist.iter().map(|w| w.tranche).collect::<Vec<_>>();
                 tranches.dedup();
@@ -632,7 +642,7 @@ impl<'word> QueryEvaluator<'word> {
                     }
 
                     deadline_check_count += 1;
-                    if deadline_check_count % 256 == 0
+                    if deadline_check_count % DEADLINE_CHECK_INTERVAL == 0
                         && deadline.is_some()
                         && Some(Instant::now()) > deadline
                     {
-- 
2.43.0


From 4aa0fd60ca86999a2114519848d49a84b69090fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 14/30] fix: letter ranges with spaces or upper-case letters
 were wrong

---
 noodle/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index bae851e..46d3c2d 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -694,8 +694,9 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             inner.for_each(|p| match p.as_rule() {
                 Rule::invert => invert = true,
                 Rule::letter_range => {
-                    let cs = p.as_str().chars().collect::<Vec<_>>();
-                    bitset.union_with(CharBitset::from_range(cs[0], cs[2]));
+                    // There may be whitespace between the letters, and their case is ignored
+                    let cs = p.as_str().to_ascii_lowercase().chars().collect::<Vec<_>>();
+                    bitset.union_with(CharBitset::from_range(cs[0], cs[cs.len() - 1]));
                 }
                 Rule::character => {
                     bitset.union_with(CharBitset::from(p.as_str().chars().next().unwrap()))
-- 
2.43.0


From d710206ef6605d51ba273bf9e52d1753e3fe983f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:23 +0000
Subject: [PATCH 15/30] fix: failures to read a word list were ignored, or
 never ended

An error while reading a word list (I/O error, truncated or corrupt zstd data) was
dropped with the line: the list silently lost its tail, or loading repeated the
failing read forever. Report such errors to the caller. Lines which are not valid
UTF-8 are still skipped.
---
 noodle/src/words.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index 1dbe331..fce8de8 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -208,18 +208,17 @@ impl fmt::Display for Word {
 }
 
 #[allow(clippy::result_unit_err)]
-pub fn load_wordlist<P>(filename: P) -> Result<Vec<Word>, ()>
+pub fn load_wordlist<P>(filename: P) -> io::Result<Vec<Word>>
 where
     P: AsRef<std::path::Path> + Clone,
 {
-    // TODO: Correctly propagate errors
     // TODO: Include tranche values in the wordlist file, rather than making them up
-    let file = std::fs::File::open(filename.clone()).unwrap();
+    let file = std::fs::File::open(filename.clone())?;
     let bufread = io::BufReader::new(file);
     let unzip: Box<dyn BufRead> =
         if filename.as_ref().extension() == Some(std::ffi::OsStr::new("zst")) {
             Box::new(io::BufReader::new(
-                zstd::stream::read::Decoder::new(bufread).unwrap(),
+                zstd::stream::read::Decoder::new(bufread)?,
             ))
         } else {
             Box::new(bufread)
@@ -234,8 +233,14 @@ where
 
     let mut wordlist: Vec<_> = unzip
         .lines()
-        .filter_map(|line| line.ok())
+        // Skip lines which are not valid UTF-8; any other error is a failure to read the file
+        .filter(|line| !matches!(line, Err(e) if e.kind() == io::ErrorKind::InvalidData))
         .filter_map(|line| {
+            let line = match line {
+                Ok(line) => line,
+                Err(e) => return Some(Err(e)),
+            };
+
             // Parse either a plain wordlist, or a 2-column (count, word) variant
             let mut word = line.as_ref();
             let mut score = line.len() as u32 * 200;
@@ -271,9 +276,9 @@ where
                 tranche += 1;
             }
 
-            Some(word)
+            Some(Ok(word))
         })
-        .collect();
+        .collect::<io::Result<_>>()?;
     wordlist.sort();
     println!(
         "Loaded {} words with {} tranches (skipped {})",
-- 
2.43.0


From a921bd4f65c755f2c220c709fd432b3b1bbed91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 16/30] fix: the time limit of HTTP queries did not apply while
 results were frequent

The evaluator checks its deadline between results, so that a query which finds
results in quick succession (#limit 100000000) ran far beyond its time limit.
---
 noodle-webapp/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index c0618da..9d1c568 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -186,6 +186,11 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
                             body.push_str(&flatten_phrase(p));
                             body.push('\n');
                         }
+                        // The evaluator only checks the deadline while it is looking for a result
+                        if Instant::now() > deadline {
+                            body.push_str(&format!("# Timeout after {:?}\n", timeout));
+                            break;
+                        }
                     }
                     QueryResponse::Timeout => {
                         body.push_str(&format!("# Timeout after {:?}\n", timeout));
-- 
2.43.0


From 8e2e5913d04b7a5c05cb964af1bddc93f9a59798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 17/30] fix: websocket queries which ended early were counted
 as active forever

A parse error or a failed write left the function before the counter was
decremented. Decrement it when the query is dropped.
---
 noodle-webapp/src/main.rs | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 9d1c568..d92d982 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -60,6 +60,26 @@ lazy_static! {
     static ref ACTIVE_QUERIES: AtomicUsize = AtomicUsize::new(0_usize);
     static ref TOTAL_QUERIES: AtomicUsize = AtomicUsize::new(0_usize);
 }
+
+/// Counts a query as active for as long as it lives
+struct ActiveQuery {
+    n_others: usize,
+}
+
+impl ActiveQuery {
+    fn start() -> Self {
+        TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
+        let n_others = ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed);
+        ActiveQuery { n_others }
+    }
+}
+
+impl Drop for ActiveQuery {
+    fn drop(&mut self) {
+        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
+    }
+}
+
 static TIMEOUT: Duration = Duration::from_secs(150);
 static TIMEOUT_PLAINTEXT: Duration = Duration::from_secs(10);
 
@@ -154,8 +174,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     //
     // TODO: I don't like that this has a lot of the same code as run_websocket,
     // but it's a pain to abstract out streams due to their long types
-    TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
-    ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed);
+    let _active = ActiveQuery::start();
 
     let timeout = if plaintext {
         TIMEOUT_PLAINTEXT
@@ -164,7 +183,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     };
     let query_ast = parser::QueryAst::new_from_str(query_str);
 
-    let result = match query_ast {
+    match query_ast {
         Ok(mut query_ast) => {
             let mut body = String::new();
             if plaintext && query_ast.options.results_limit.is_none() {
@@ -205,9 +224,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
             Ok(body)
         }
         Err(error) => Ok(error.to_string()),
-    };
-    ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
-    result
+    }
 }
 
 /// Websockets interface, for interactive use
@@ -230,12 +247,11 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             .map(|m| m.map_err(Into::into))
             .unwrap_or_else(|| Err(anyhow!("Websocket closed without data")))?;
 
-        TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
-        let n_active = { ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed) };
+        let active = ActiveQuery::start();
         let start = Instant::now();
         tx.send(Response::Status(format!(
             "Running query ({} other(s) active)...",
-            n_active
+            active.n_others
         )))
         .await?;
 
@@ -311,7 +327,6 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             };
         }
 
-        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
         Ok(())
     }
     .await;
-- 
2.43.0


From 1727db0185e97e10379ae5794deb0f9e39b2592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 18/30] fix: a websocket message other than text crashed the
 server

The first message of a websocket was taken to be text: a ping, a binary message or
a close frame instead of a query was a panic, which ends the process.
---
 noodle-webapp/src/main.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index d92d982..73dac54 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -241,11 +241,16 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
         // returning mixing in results from the previous query.
         // We're not really using websockets for any performance reason, it's mostly for
         // the robust framing capabilities (which Warp has good support for).
-        let msg = rx
-            .next()
-            .await
-            .map(|m| m.map_err(Into::into))
-            .unwrap_or_else(|| Err(anyhow!("Websocket closed without data")))?;
+        let query_str = loop {
+            let msg = rx
+                .next()
+                .await
+                .ok_or_else(|| anyhow!("Websocket closed without data"))??;
+            // Skip pings and anything else which is not text
+            if let Ok(text) = msg.to_str() {
+                break text.to_string();
+            }
+        };
 
         let active = ActiveQuery::start();
         let start = Instant::now();
@@ -255,7 +260,7 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
         )))
         .await?;
 
-        let query_ast = parser::QueryAst::new_from_str(msg.to_str().unwrap());
+        let query_ast = parser::QueryAst::new_from_str(&query_str);
 
         if let Err(e) = &query_ast {
             tx.send(Response::Status("Query parse error".to_string()))
-- 
2.43.0


From 9ae3e3672a63de8bd67bcca5452a3e32499c551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 19/30] fix: a POST body which is not valid UTF-8 crashed the
 server

---
 noodle-webapp/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 73dac54..216c374 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -389,7 +389,7 @@ async fn main() {
         .and(warp::body::content_length_limit(64 * 1024)) // 64kB
         .and(warp::body::bytes())
         .map(|query_str: bytes::Bytes| {
-            run_query_sync(std::str::from_utf8(&query_str).unwrap(), false)
+            run_query_sync(&String::from_utf8_lossy(&query_str), false)
         });
 
     let routes = get_query
-- 
2.43.0


From 8cf7a6caea425679c5481803250bfc7335b5d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 20/30] fix: the command-line tool ignored #limit and #words in
 a query

The command-line options still take precedence over the query.
---
 noodle-cli/src/main.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/noodle-cli/src/main.rs b/noodle-cli/src/main.rs
index 86f8521..cb27d41 100644
--- a/noodle-cli/src/main.rs
+++ b/noodle-cli/src/main.rs
@@ -16,8 +16,10 @@ struct Opt {
     count: Option<usize>,
 
     /// Maximum number of words to combine to make a matching phrase
-    #[structopt(short = "m", long, default_value = "10")]
-    phrase_length: usize,
+    ///
+    /// (default: 10, or `#words` in the query)
+    #[structopt(short = "m", long)]
+    phrase_length: Option<usize>,
 
     /// Noodle query string
     #[structopt(name = "query")]
@@ -29,8 +31,10 @@ fn main() {
     let words = load_wordlist(opt.input).unwrap();
     let query_ast = parser::QueryAst::new_from_str(&opt.query).unwrap();
     let mut evaluator = QueryEvaluator::from_ast(&query_ast, &words);
-    evaluator.set_results_limit(opt.count);
-    evaluator.set_search_depth_limit(opt.phrase_length);
+    evaluator.set_results_limit(opt.count.or(query_ast.options.results_limit));
+    if let Some(phrase_length) = opt.phrase_length {
+        evaluator.set_search_depth_limit(phrase_length);
+    }
 
     for result in evaluator {
         if let QueryResponse::Match(phrase) = result {
-- 
2.43.0


From e84f5050e84366aa42a248fbc397029e6ea9de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:03 +0000
Subject: [PATCH 21/30] fix: "#dictionary NAME" selected a dictionary called
 "ionaryNAME"

---
 noodle/src/noodle_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 677c912..d6a7cf8 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -77,7 +77,7 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-pragma_dict = { (^"#dict" | ^"#dictionary") ~ (character | "-")+ }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ (character | "-")+ }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0


From 1a807f6691a5e546f9c1562ece095871cce7a27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:45 +0000
Subject: [PATCH 22/30] fix: "#dict" could not name a dictionary with a digit
 or dash in its name

---
 noodle/src/noodle_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index d6a7cf8..ac019e8 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -77,7 +77,8 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-pragma_dict = { (^"#dictionary" | ^"#dict") ~ (character | "-")+ }
+dictionary_name = { (character | ASCII_DIGIT | "-")+ }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ dictionary_name }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0


From 6bfbb8b2f65ce93ddacd5cc126dbc8c75fa82a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:58 +0000
Subject: [PATCH 23/30] fix: trailing spaces after the name in "#dict NAME"
 became part of the name

---
 noodle/src/noodle_grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index ac019e8..faa5a68 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -77,8 +77,8 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-dictionary_name = { (character | ASCII_DIGIT | "-")+ }
-pragma_dict = { (^"#dictionary" | ^"#dict") ~ dictionary_name }
+dictionary_character = { character | ASCII_DIGIT | "-" }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ dictionary_character+ }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0


From 59631031b88dd7946c7c0bbdd117eae77a65c50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:04 +0000
Subject: [PATCH 24/30] fix: websocket connections were dropped before the
 closing handshake was done

The close message was skipped when it could not be sent at once, and unread
pings turned the close into a reset, which could lose the last messages.
---
 noodle-webapp/src/main.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 216c374..61fa1c1 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -82,6 +82,7 @@ impl Drop for ActiveQuery {
 
 static TIMEOUT: Duration = Duration::from_secs(150);
 static TIMEOUT_PLAINTEXT: Duration = Duration::from_secs(10);
+static TIMEOUT_CLOSE: Duration = Duration::from_secs(30);
 
 #[derive(Debug, Clone, PartialEq, Serialize)]
 #[serde(rename_all = "snake_case")]
@@ -338,12 +339,16 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
     if let Err(e) = r {
         println!("Error: {:?}", e);
     }
-    let _ = tx
-        .into_inner()
-        .reunite(rx.into_inner())
-        .unwrap()
-        .close()
+    let mut websocket = tx.into_inner().reunite(rx.into_inner()).unwrap();
+    // Unlike close(), this does not give up if the message can't be sent at once
+    if websocket.send(Message::close()).await.is_ok() {
+        // Let the client close the connection. If it was dropped while there is still something
+        // to read, it would be reset, and the client may never see the last messages.
+        let _ = tokio::time::timeout(TIMEOUT_CLOSE, async {
+            while let Some(Ok(_)) = websocket.next().await {}
+        })
         .await;
+    }
 }
 
 #[tokio::main(flavor = "multi_thread", worker_threads = 20)]
-- 
2.43.0


From 0488f395cb13bd7b9829b2309cc41e5b76cc2eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:47 +0000
Subject: [PATCH 25/30] fix: HTTP queries blocked the worker threads which
 serve all other clients

With 20 of them running, nothing else was answered until they timed out.
---
 noodle-webapp/src/main.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 61fa1c1..0bf2d88 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -387,14 +387,21 @@ async fn main() {
     let get_query = warp::get()
         .and(warp::path("query"))
         .and(warp::path::param())
-        .map(|q: String| run_query_sync(&percent_decode_str(&q).decode_utf8_lossy(), true));
+        .map(|q: String| {
+            // Leave the async worker threads to the other clients
+            tokio::task::block_in_place(|| {
+                run_query_sync(&percent_decode_str(&q).decode_utf8_lossy(), true)
+            })
+        });
 
     let post_query = warp::post()
         .and(warp::path("query"))
         .and(warp::body::content_length_limit(64 * 1024)) // 64kB
         .and(warp::body::bytes())
         .map(|query_str: bytes::Bytes| {
-            run_query_sync(&String::from_utf8_lossy(&query_str), false)
+            tokio::task::block_in_place(|| {
+                run_query_sync(&String::from_utf8_lossy(&query_str), false)
+            })
         });
 
     let routes = get_query
-- 
2.43.0


From 322da0881c2e2d6c49ff5c62dd148308d2fc102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:42 +0000
Subject: [PATCH 26/30] fix: a websocket client which had sent many messages
 was not noticed when it closed

---
 noodle-webapp/src/main.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 0bf2d88..868746a 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -289,7 +289,15 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
 
         let mut duration = Duration::from_millis(0);
         loop {
-            if let Poll::Ready(None) = poll!(rx.next()) {
+            // Skip over anything else the client has sent: it may have closed the connection after that
+            let gone = loop {
+                match poll!(rx.next()) {
+                    Poll::Ready(Some(Ok(_))) => {}
+                    Poll::Ready(_) => break true,
+                    Poll::Pending => break false,
+                }
+            };
+            if gone {
                 println!(
                     "Computation terminated by client after {:?}",
                     start.elapsed()
-- 
2.43.0


From 652a2079fa78358b29b813d855c26bc9e0cfb294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:46 +0000
Subject: [PATCH 27/30] Count search steps for the simulator (--cfg noodle_sim)

---
 noodle/src/lib.rs     |  4 ++++
 noodle/src/matcher.rs |  6 ++++++
 noodle/src/sim.rs     | 10 ++++++++++
 3 files changed, 20 insertions(+)
 create mode 100644 noodle/src/sim.rs

diff --git a/noodle/src/lib.rs b/noodle/src/lib.rs
index 3906dce..f1369d7 100644
--- a/noodle/src/lib.rs
+++ b/noodle/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 extern crate pest;
 #[macro_use]
 extern crate pest_derive;
@@ -7,6 +9,8 @@ pub mod expression;
 mod matcher;
 pub mod parser;
 pub mod query;
+#[cfg(noodle_sim)]
+pub mod sim;
 pub mod words;
 
 pub use expression::Expression;
diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index c1deb0c..ef15323 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -216,6 +216,9 @@ impl<'word> WordMatcher<'word> {
             }
             deadline_check_count += 1;
 
+            #[cfg(noodle_sim)]
+            crate::sim::candidate();
+
             let word = wordlist.borrow(self.word_index);
             self.word_index += 1;
 
@@ -652,6 +655,9 @@ impl PhraseMatcher {
         prev_fuzz_dst: BitSetRef2D,
         next_fuzz_dst: BitSetRefMut2D,
     ) {
+        #[cfg(noodle_sim)]
+        crate::sim::candidate();
+
         // This assert isn't stictly required; but class 0 denotes "empty" words,
         // so if there are still empty words hanging around in the alive_wordlist,
         // then there were some missed optimizations.
diff --git a/noodle/src/sim.rs b/noodle/src/sim.rs
new file mode 100644
index 0000000..1257df7
--- /dev/null
+++ b/noodle/src/sim.rs
@@ -0,0 +1,10 @@
+//! Hooks for the simulator, only built with `RUSTFLAGS="--cfg noodle_sim"`
+
+use std::sync::atomic::{AtomicU64, Ordering};
+
+/// Candidates which have been examined so far, each line of a query counted separately
+pub static WORK: AtomicU64 = AtomicU64::new(0);
+
+pub(crate) fn candidate() {
+    WORK.fetch_add(1, Ordering::Relaxed);
+}
-- 
2.43.0


From e6ced8771b431ba8cead0cb8bd0d2832888329cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:40 +0000
Subject: [PATCH 28/30] fix: word lists with spaces, quotes or accents in their
 names

Such a list could not be downloaded (the default list was delivered instead), and
quotes made the list index and the metrics unreadable.
---
 noodle-webapp/src/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 868746a..59245f9 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -120,7 +120,7 @@ noodle_queries_total {}
         writeln!(
             &mut output,
             "noodle_wordlist_size{{wordlist=\"{}\"}} {}",
-            name,
+            name.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n"),
             words.len()
         )
         .unwrap();
@@ -131,6 +131,7 @@ noodle_queries_total {}
 }
 
 fn get_wordlist(name: String) -> http::Result<http::Response<hyper::Body>> {
+    let name = percent_decode_str(&name).decode_utf8_lossy();
     let stream = stream::iter(
         words(&name)
             .iter()
@@ -154,8 +155,8 @@ fn get_wordlist_js() -> http::Result<http::Response<hyper::Body>> {
     for (name, words) in WORDLISTS.iter() {
         writeln!(
             &mut output,
-            "window.WORDLISTS.push({{\"name\": \"{}\", \"len\": {}}});",
-            name, words.len(),
+            "window.WORDLISTS.push({{\"name\": {}, \"len\": {}}});",
+            serde_json::to_string(name).unwrap(), words.len(),
         ).unwrap();
     }
     http::Response::builder()
-- 
2.43.0


From 6dbeaf6ca862ce5cfa042a38587fef427192751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:25 +0000
Subject: [PATCH 29/30] fix: let `/* ... */` comments end at the first `*/`

`ANY+` is greedy and never gives anything back, so that the `*/` after it could
not match: no query with such a comment was ever accepted.
---
 noodle/src/noodle_grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index faa5a68..4ce2fb0 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -1,7 +1,7 @@
 WHITESPACE = _{ " " }
 COMMENT = _{ 
     (("//" | "--") ~ ANY+) |
-    ("/*" ~ ANY+ ~ "*/")
+    ("/*" ~ (!"*/" ~ ANY)* ~ "*/")
 }
 
 // Note: Keep field names human-readable, they end up in error messages
-- 
2.43.0


From b8a1a50b3cb88e61c709e798fe813be1d7a444e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:58 +0000
Subject: [PATCH 30/30] fix: keep running when standard output cannot be
 written

println! panics if the log is on a full disk or its reader is gone: the
first client which disconnected during its query took the server down.
---
 noodle-webapp/src/main.rs | 8 ++++----
 noodle/src/expression.rs  | 2 +-
 noodle/src/lib.rs         | 9 +++++++++
 noodle/src/parser.rs      | 4 ++--
 noodle/src/words.rs       | 2 +-
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 59245f9..9c24ead 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -42,13 +42,13 @@ lazy_static! {
             let filepath = path.path();
 
             if map.contains_key(&name) {
-                println!("Skipping duplicate wordlist {name}");
+                noodle::log_line!("Skipping duplicate wordlist {name}");
                 continue;
             }
 
             let start = Instant::now();
             let words = load_wordlist(&filepath).unwrap();
-            println!(
+            noodle::log_line!(
                 "Time to load wordlist {name} from {:?}: {:?}",
                 filepath,
                 start.elapsed()
@@ -299,7 +299,7 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
                 }
             };
             if gone {
-                println!(
+                noodle::log_line!(
                     "Computation terminated by client after {:?}",
                     start.elapsed()
                 );
@@ -346,7 +346,7 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
     }
     .await;
     if let Err(e) = r {
-        println!("Error: {:?}", e);
+        noodle::log_line!("Error: {:?}", e);
     }
     let mut websocket = tx.into_inner().reunite(rx.into_inner()).unwrap();
     // Unlike close(), this does not give up if the message can't be sent at once
diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 88871cd..175ca77 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -430,7 +430,7 @@ impl Expression {
             loop_count += 1;
         }
         if loop_count > 2 {
-            println!("warning: optimize_states required {} loops", loop_count);
+            crate::log_line!("warning: optimize_states required {} loops", loop_count);
         }
     }
 
diff --git a/noodle/src/lib.rs b/noodle/src/lib.rs
index f1369d7..e1abaed 100644
--- a/noodle/src/lib.rs
+++ b/noodle/src/lib.rs
@@ -4,6 +4,15 @@ extern crate pest;
 #[macro_use]
 extern crate pest_derive;
 
+/// Like `println!`, but a log which cannot be written is no reason to panic
+#[macro_export]
+macro_rules! log_line {
+    ($($arg:tt)*) => {{
+        use std::io::Write as _;
+        let _ = writeln!(std::io::stdout(), $($arg)*);
+    }};
+}
+
 mod bitset;
 pub mod expression;
 mod matcher;
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 46d3c2d..6a1f789 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -293,7 +293,7 @@ impl QueryAst {
                         }
                     }
                     Rule::EOI => (),
-                    _ => println!("Unexpected: {:?}", pair),
+                    _ => crate::log_line!("Unexpected: {:?}", pair),
                 }
             }
         }
@@ -757,7 +757,7 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             let mut number = number.unwrap();
             if rule == Rule::transdelete && number > bank.len() {
                 // NB: Should this be an error?
-                println!("Warning: transdelete longer than bank");
+                crate::log_line!("Warning: transdelete longer than bank");
                 number = bank.len();
             }
             Some(Ast::Anagram {
diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index fce8de8..c5b08df 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -280,7 +280,7 @@ where
         })
         .collect::<io::Result<_>>()?;
     wordlist.sort();
-    println!(
+    crate::log_line!(
         "Loaded {} words with {} tranches (skipped {})",
         wordlist.len(),
         tranche + 1,
-- 
2.43.0

