From 41979450657449c9619e99b02d5ea829a01bcb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 01/30] fix: alternatives ending in a branch or in nothing lost
 their exits

Every transition leaving an alternative has to be repointed at the end of
the whole group: `((a|b)|c)` matched "ac" and missed "a", and an
alternative without states (`b{0}`) fell through into the next one.
---
 noodle/src/expression.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index ba1212a..56abbaa 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -91,24 +91,36 @@ impl Expression {
             }
             parser::Ast::Alternatives(alts) => {
                 states.push(State::new());
-                let mut end_indexes = vec![];
+                let mut alt_ranges = vec![];
                 for alt in alts {
-                    let next_index = states.len();
+                    let start_index = states.len();
                     states[initial_len]
                         .epsilon_states_bitset_mut()
-                        .insert(next_index);
+                        .insert(start_index);
                     Self::build_states(alt, states);
-                    end_indexes.push(states.len() - 1);
+                    alt_ranges.push(start_index..states.len());
                 }
                 let next_index = states.len();
-                for end_index in end_indexes {
-                    // Repoint the terminal states to the true success state
-                    let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.remove(end_index + 1);
-                        epsilon_states.insert(next_index);
+                for alt_range in alt_ranges {
+                    // Every transition out of `alt_range` goes to `alt_range.end`. (There may be
+                    // several, if the alternative itself ends in a branch.)
+                    // Repoint them to the true success state
+                    if alt_range.is_empty() {
+                        // This alternative has no states, it only matches the empty string
+                        states[initial_len]
+                            .epsilon_states_bitset_mut()
+                            .insert(next_index);
+                    }
+                    for state in states[alt_range.clone()].iter_mut() {
+                        let mut epsilon_states = state.epsilon_states_bitset_mut();
+                        if epsilon_states.contains(alt_range.end) {
+                            epsilon_states.remove(alt_range.end);
+                            epsilon_states.insert(next_index);
+                        }
+                        if state.next_state == alt_range.end {
+                            state.next_state = next_index;
+                        }
                     }
-                    states[end_index].next_state = next_index;
                 }
             }
             parser::Ast::Sequence(terms) => {
-- 
2.43.0


From 1438db51f4cf5ea5dea566ca85704ea76f8035c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:07 +0000
Subject: [PATCH 02/30] fix: a substring could not end after a term with
 several exits

`((a|b*)c:^)` missed "a": only the last state of each term was given a
way out. Leave from the start of the following term instead.
---
 noodle/src/expression.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 56abbaa..8c3a2d7 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -137,24 +137,16 @@ impl Expression {
                         .epsilon_states_bitset_mut()
                         .insert(next_index);
                     Self::build_states(term, states);
-                    end_indexes.push(states.len() - 1);
+                    end_indexes.push(states.len());
                 }
                 let next_index = states.len();
                 for end_index in end_indexes {
-                    // Add the true success state to the terminal states
-                    let mut epsilon_states = states[end_index].epsilon_states_bitset_mut();
-                    if epsilon_states.contains(end_index + 1) {
-                        epsilon_states.insert(next_index);
-                    }
-                    // Rather than have the `char_bitset` edge point to two states,
-                    // we add a epsilon transition onto the `next_state`
-                    if states[end_index].char_bitset != CharBitset::EMPTY {
-                        let next_state = states[end_index].next_state;
-                        if next_state != next_index {
-                            states[next_state]
-                                .epsilon_states_bitset_mut()
-                                .insert(next_index);
-                        }
+                    // Every transition out of a term leads to the start of the term after it, so
+                    // from there add an epsilon transition to the true success state
+                    if end_index < next_index {
+                        states[end_index]
+                            .epsilon_states_bitset_mut()
+                            .insert(next_index);
                     }
                 }
             }
-- 
2.43.0


From 2a8bf3ec9a6be6f319a15efe3e21ad482acfb733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 03/30] fix: the last phrase was dropped when it was a match

If the very last candidate of the search matched, Complete was returned
in place of the match: `bb` over [a, b] found nothing.
---
 noodle/src/query.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index ab0819d..e2992f7 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -193,7 +193,10 @@ impl<'word> QueryEvaluator<'word> {
                 initial_search_estimate,
                 ..
             } => {
-                let phase = &search_queue[0];
+                let phase = match search_queue.first() {
+                    Some(phase) => phase,
+                    None => return "Done".to_string(),
+                };
                 let step_index = &search_layers[0].word_index;
 
                 let estimate = search_estimate(search_queue);
@@ -502,7 +505,17 @@ impl<'word> QueryEvaluator<'word> {
                 let mut deadline_check_count = 0;
                 let mut result = None;
                 loop {
-                    let search_phase = &search_queue[0];
+                    let search_phase = match search_queue.first() {
+                        Some(search_phase) => search_phase,
+                        None => {
+                            // Signal that the iterator is exhausted
+                            self.phase = QueryPhase::Done;
+                            return QueryResponse::Complete(format!(
+                                "Complete, found all {} phrases up to {} words",
+                                self.results_count, self.search_depth_limit
+                            ));
+                        }
+                    };
                     let (lower_layers, upper_layers) = search_layers.split_at_mut(*layer_index + 1);
                     let prev_layer = &mut lower_layers[*layer_index];
                     let next_layer = &mut upper_layers[0];
@@ -594,12 +607,8 @@ impl<'word> QueryEvaluator<'word> {
 
                                     if search_queue.is_empty() {
                                         // If the depth queue is empty, we're done for good!
-                                        // Signal that the iterator is exhausted
-                                        self.phase = QueryPhase::Done;
-                                        return QueryResponse::Complete(format!(
-                                            "Complete, found all {} phrases up to {} words",
-                                            self.results_count, self.search_depth_limit
-                                        ));
+                                        // (But the last candidate itself may have been a match)
+                                        break;
                                     } else {
                                         // Otherwise, restart at the first layer with the new depth
                                         *phase_had_partial_match = false;
-- 
2.43.0


From f2b8d167992816874057e99076669b41c8596b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 04/30] fix: progress() divided by zero for an empty wordlist
 or a one-word search

---
 noodle/src/matcher.rs | 2 +-
 noodle/src/query.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index 71a7ca8..ec430dc 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -162,7 +162,7 @@ impl<'word> WordMatcher<'word> {
             "Single-word matches: {}/{} ({}%)",
             self.word_index,
             wordlist.len(),
-            100 * self.word_index / wordlist.len()
+            100 * self.word_index / wordlist.len().max(1)
         )
     }
 
diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index e2992f7..fb7f828 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -209,7 +209,7 @@ impl<'word> QueryEvaluator<'word> {
                     phase.depth,
                     estimate,
                     initial_search_estimate,
-                    100 * estimate / initial_search_estimate,
+                    100 * estimate / (*initial_search_estimate).max(1),
                     phase.tranche,
                 )
             }
-- 
2.43.0


From 11455a83fcf25b563e13ad641d54e96bf5e72d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 05/30] fix: a query without expressions panicked

An empty line, or only comments, macros and pragmas, is a valid query;
evaluate it to no results instead of failing an assertion (which takes
the release build of the web server down with it).
---
 noodle/src/query.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/noodle/src/query.rs b/noodle/src/query.rs
index fb7f828..2dea5aa 100644
--- a/noodle/src/query.rs
+++ b/noodle/src/query.rs
@@ -106,8 +106,6 @@ impl<'word> QueryEvaluator<'word> {
         search_depth_limit: PhraseDepth,
         results_limit: Option<usize>,
     ) -> Self {
-        assert!(!expressions.is_empty());
-
         // TODO: Remove +1
         let max_word_len = 1 + input_wordlist
             .iter()
@@ -186,7 +184,10 @@ impl<'word> QueryEvaluator<'word> {
 
     pub fn progress(&self) -> String {
         match &self.phase {
-            QueryPhase::Word { matchers, wordlist } => matchers[0].progress(wordlist),
+            QueryPhase::Word { matchers, wordlist } => match matchers.first() {
+                Some(matcher) => matcher.progress(wordlist),
+                None => "No expressions".to_string(),
+            },
             QueryPhase::Phrase {
                 search_layers,
                 search_queue,
@@ -231,6 +232,11 @@ impl<'word> QueryEvaluator<'word> {
 
         match &mut self.phase {
             QueryPhase::Word { matchers, wordlist } => {
+                if matchers.is_empty() {
+                    self.phase = QueryPhase::Done;
+                    return QueryResponse::Complete("Complete, no expressions to match".to_string());
+                }
+
                 let single_word_only = self.search_depth_limit <= 1;
 
                 // Check for single-word matches
-- 
2.43.0


From 85a3f0f8b86944bedd1c77f3084fbb5a84417b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 06/30] fix: an anagram inside a repetition or a subset
 panicked

expand_expressions() did not look inside repetitions, so `<abc>?` or
`(x<abc>:-)` reached unreachable!() in build_states().
---
 noodle/src/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index dbe938b..8261b46 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -219,10 +219,10 @@ impl QueryAst {
                     nodes.iter_mut().for_each(|n| visit(n, action))
                 }
                 Ast::Repetition {
-                    term: _,
+                    term,
                     min: _,
                     max: _,
-                } => (),
+                } => visit(term, action),
                 Ast::Anagram { kind: _, bank: _ } => action(node),
             }
         }
-- 
2.43.0


From c8f91d1473b486d056a2414c1ab5c6ef77aada66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 07/30] fix: block comments and empty line comments were parse
 errors

`ANY+` consumed the closing `*/`, so `/* ... */` never matched; and
`//` at the very end of a line was rejected.
---
 noodle/src/noodle_grammar.pest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 486f01c..f8fcfdb 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -1,7 +1,7 @@
 WHITESPACE = _{ " " }
 COMMENT = _{ 
-    (("//" | "--") ~ ANY+) |
-    ("/*" ~ ANY+ ~ "*/")
+    (("//" | "--") ~ ANY*) |
+    ("/*" ~ (!"*/" ~ ANY)* ~ "*/")
 }
 
 // Note: Keep field names human-readable, they end up in error messages
-- 
2.43.0


From 4db528fe75da556acb1fed58e5b9175a52823082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 08/30] fix: #dict dropped dashes, rejected digits and broke
 #dictionary

`#dict wiki-titles` asked for "wikititles", `#dict npl-allwords2` was a
parse error and `#dictionary x` asked for "ionaryx": all three are names
or spellings noodle documents, and silently use another wordlist.
---
 noodle/src/noodle_grammar.pest | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index f8fcfdb..787ea6c 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -78,7 +78,8 @@ macro_value = { (' '..'~')* } // Nearly any ASCII character
 macro_define = { SOI ~ macro_name ~ "=" ~ macro_value ~ EOI }
 
 pragma_words = { ^"#words" ~ number }
-pragma_dict = { (^"#dict" | ^"#dictionary") ~ (character | "-")+ }
+dict_character = { ASCII_ALPHANUMERIC | "-" | "_" | "." | "'" }
+pragma_dict = { (^"#dictionary" | ^"#dict") ~ dict_character+ }
 pragma_limit = {^"#limit" ~ number }
 pragma_quiet = {^"#quiet"}
 pragma_wordlist = {^"#wordlist"}
-- 
2.43.0


From 46725231da1c63d3f538e31ee5592c68a3c1c9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 09/30] fix: letter ranges with mixed case or whitespace were
 wrong

`[A-c]` walked all the ASCII characters between 'A' and 'c', so matched
everything (punctuation included); `[a-C]` and `[a - c]` matched nothing.
---
 noodle/src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 8261b46..97d8931 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -517,8 +517,11 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             inner.for_each(|p| match p.as_rule() {
                 Rule::invert => invert = true,
                 Rule::letter_range => {
-                    let cs = p.as_str().chars().collect::<Vec<_>>();
-                    bitset.union_with(CharBitset::from_range(cs[0], cs[2]));
+                    // Letters are case-insensitive, and there may be whitespace around the dash
+                    let range = p.as_str().to_ascii_lowercase();
+                    let low = range.chars().next().unwrap();
+                    let high = range.chars().last().unwrap();
+                    bitset.union_with(CharBitset::from_range(low, high));
                 }
                 Rule::character => {
                     bitset.union_with(CharBitset::from(p.as_str().chars().next().unwrap()))
-- 
2.43.0


From d9d025820ffcbf448d7c2714f99cac656f290127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 10/30] fix: parsing took exponential time in the nesting of
 parentheses

Each of the alternatives sharing a (nested) prefix parsed it again, some 17
times per level: `((((((a))))))` took minutes, in which a web worker is
stuck. Parse the prefix once and decide by what follows; the language and
the resulting AST are unchanged.
---
 noodle/src/noodle_grammar.pest |  52 ++++++------
 noodle/src/parser.rs           | 144 ++++++++++++++++++++-------------
 2 files changed, 114 insertions(+), 82 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 787ea6c..34574a5 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -18,27 +18,30 @@ invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
 anagram_body = { ASCII_ALPHA+ }
 
-sequence = { (repeat | term)+ }
-alternatives = { sequence ~ ("|" ~ sequence)+ }
+// Avoid alternatives which share a prefix containing `subexpression`: if the prefix had to be
+// parsed again for each of them, parsing would take exponential time in the nesting depth
+sequence = { repeat+ }
+alternatives = { sequence ~ ("|" ~ sequence)* }
 anagram = { "<" ~ anagram_body ~ ">" }
 superanagram = { "<" ~ anagram_body ~ "+>" }
 subanagram = { "<" ~ anagram_body ~ "->" }
 transadd = { "<" ~ anagram_body ~ "+" ~ number ~ ">" }
 transdelete = { "<" ~ anagram_body ~ "-" ~ number ~ ">" }
-substring = { "(" ~ term+ ~ ":^)" }
-subset = { "(" ~ term+ ~ ":-)" }
-superset = { "(" ~ term+ ~ ":+)" }
+substring = { ":^)" }
+subset = { ":-)" }
+superset = { ":+)" }
 
-repeat_optional = { term ~ "?" }
-repeat_any = { term ~ "*" }
-repeat_oneormore = { term ~ "+" }
-repeat_atmost = { term ~ "{," ~ number ~ "}" }
-repeat_exact = { term ~ "{" ~ number ~ "}" }
-repeat_atleast = { term ~ "{" ~ number ~ ",}" }
-repeat_range = { term ~ "{" ~ number ~ "," ~ number ~ "}" }
+repeat_optional = { "?" }
+repeat_any = { "*" }
+repeat_oneormore = { "+" }
+repeat_atmost = { "{," ~ number ~ "}" }
+repeat_exact = { "{" ~ number ~ "}" }
+repeat_atleast = { "{" ~ number ~ ",}" }
+repeat_range = { "{" ~ number ~ "," ~ number ~ "}" }
 
-subexpression = _{ (alternatives | sequence) }
-group = _{ "(" ~ subexpression ~ ")" }
+subexpression = _{ alternatives }
+// NB: The contents of a substring/subset/superset are further restricted by `check_group`
+group = { "(" ~ subexpression ~ (")" | substring | subset | superset) }
 term = _{
       class
     | dot
@@ -48,20 +51,19 @@ term = _{
     | subanagram
     | transadd
     | transdelete
-    | substring
-    | subset
-    | superset
     | number
     | character
 }
-repeat = _{
-    repeat_optional |
-    repeat_any |
-    repeat_oneormore |
-    repeat_atmost |
-    repeat_exact |
-    repeat_atleast |
-    repeat_range
+repeat = {
+    term ~ (
+        repeat_optional |
+        repeat_any |
+        repeat_oneormore |
+        repeat_atmost |
+        repeat_exact |
+        repeat_atleast |
+        repeat_range
+    )?
 }
 
 
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 97d8931..29b5c80 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,6 +1,6 @@
 use crate::words::*;
 use indexmap::IndexMap;
-use pest::error::{Error as PestError, LineColLocation};
+use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
 use pest::Parser;
 use std::fmt;
@@ -81,7 +81,7 @@ impl ExpressionAst {
             .next()
             .unwrap();
 
-        Ok(parse_expression(pair))
+        parse_expression(pair)
     }
 }
 
@@ -148,7 +148,8 @@ impl QueryAst {
             if let Some(pair) = pair.next() {
                 match pair.as_rule() {
                     Rule::expression => {
-                        let expr = parse_expression(pair);
+                        let expr =
+                            parse_expression(pair).map_err(|e| error_set_line(e, i + 1))?;
                         expressions.push(expr);
                     }
                     Rule::pragma_words => {
@@ -533,43 +534,41 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
             }
             Some(Ast::CharClass(bitset))
         }
-        Rule::subset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .map(|c| Ast::Repetition {
-                    term: Box::new(c),
-                    min: 0,
-                    max: Some(1),
-                })
-                .collect(),
-        )),
-        Rule::superset => Some(Ast::Sequence(
-            pair.into_inner()
-                .filter_map(parse_term)
-                .flat_map(|c| {
-                    vec![
-                        Ast::Repetition {
-                            term: Box::new(Ast::CharClass(CharBitset::ALL)),
+        Rule::group => {
+            let mut inner = pair.into_inner();
+            let alternatives = inner.next().unwrap();
+            let kind = match inner.next() {
+                Some(kind) => kind.as_rule(),
+                None => return parse_term(alternatives),
+            };
+            // `check_group` made sure that there is exactly one alternative
+            let sequence = alternatives.into_inner().next().unwrap();
+            let terms = sequence.into_inner().filter_map(parse_term);
+            let any = || Ast::Repetition {
+                term: Box::new(Ast::CharClass(CharBitset::ALL)),
+                min: 0,
+                max: None,
+            };
+            Some(match kind {
+                Rule::subset => Ast::Sequence(
+                    terms
+                        .map(|c| Ast::Repetition {
+                            term: Box::new(c),
                             min: 0,
-                            max: None,
-                        },
-                        c,
-                    ]
-                    .into_iter()
-                })
-                .chain(std::iter::once(Ast::Repetition {
-                    term: Box::new(Ast::CharClass(CharBitset::ALL)),
-                    min: 0,
-                    max: None,
-                }))
-                .collect(),
-        )),
-        Rule::substring => Some(Ast::Substring(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
-        Rule::group => Some(Ast::Sequence(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
+                            max: Some(1),
+                        })
+                        .collect(),
+                ),
+                Rule::superset => Ast::Sequence(
+                    terms
+                        .flat_map(|c| vec![any(), c].into_iter())
+                        .chain(std::iter::once(any()))
+                        .collect(),
+                ),
+                Rule::substring => Ast::Substring(terms.collect()),
+                _ => unreachable!(),
+            })
+        }
         Rule::sequence => Some(Ast::Sequence(
             pair.into_inner().filter_map(parse_term).collect(),
         )),
@@ -585,16 +584,15 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 Ast::CharClass(Char::WORD_END.into()),
             ]))
         }
-        Rule::repeat_optional
-        | Rule::repeat_any
-        | Rule::repeat_oneormore
-        | Rule::repeat_exact
-        | Rule::repeat_atmost
-        | Rule::repeat_atleast
-        | Rule::repeat_range => {
+        Rule::repeat => {
             let mut pairs = pair.into_inner();
-            let term = Box::new(pairs.next().and_then(parse_term).unwrap());
-            let numbers = parse_numbers(pairs);
+            let term = pairs.next().and_then(parse_term)?;
+            let pair = match pairs.next() {
+                Some(pair) => pair,
+                None => return Some(term),
+            };
+            let rule = pair.as_rule();
+            let numbers = parse_numbers(pair.into_inner());
             let (min, max) = match rule {
                 Rule::repeat_optional => (0, Some(1)),
                 Rule::repeat_any => (0, None),
@@ -605,7 +603,11 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 Rule::repeat_range => (numbers[0], Some(numbers[1])),
                 _ => unreachable!(),
             };
-            Some(Ast::Repetition { term, min, max })
+            Some(Ast::Repetition {
+                term: Box::new(term),
+                min,
+                max,
+            })
         }
         Rule::anagram | Rule::subanagram | Rule::superanagram => {
             let (bank, number) = parse_anagram(pair.into_inner());
@@ -638,9 +640,14 @@ fn parse_term(pair: Pair<Rule>) -> Option<Ast> {
                 bank,
             })
         }
-        Rule::alternatives => Some(Ast::Alternatives(
-            pair.into_inner().filter_map(parse_term).collect(),
-        )),
+        Rule::alternatives => {
+            let mut terms: Vec<_> = pair.into_inner().filter_map(parse_term).collect();
+            if terms.len() == 1 {
+                terms.pop()
+            } else {
+                Some(Ast::Alternatives(terms))
+            }
+        }
 
         _ => None,
     }
@@ -701,21 +708,44 @@ fn detect_options(ast: &Ast, options: &mut ExpressionOptions) {
     }
 }
 
+/// Check that a `Rule::group` with a `:^)`, `:-)` or `:+)` is made up of plain terms
+fn check_group(pair: Pair<Rule>) -> Result<()> {
+    let span = pair.as_span();
+    let mut inner = pair.into_inner();
+    let mut alternatives = inner.next().unwrap().into_inner();
+    if inner.next().is_none() {
+        return Ok(());
+    }
+    let mut terms = alternatives.next().unwrap().into_inner();
+    if alternatives.next().is_some() || terms.any(|term| term.into_inner().count() > 1) {
+        let message = "expected only terms, without repetition or alternatives".to_string();
+        return Err(PestError::new_from_span(
+            ErrorVariant::CustomError { message },
+            span,
+        ));
+    }
+    Ok(())
+}
+
 /// Build an AST for the given `Rule::expression`
-fn parse_expression(pair: Pair<Rule>) -> ExpressionAst {
+fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     assert_eq!(pair.as_rule(), Rule::expression);
 
+    for pair in pair.clone().into_inner().flatten() {
+        if pair.as_rule() == Rule::group {
+            check_group(pair)?;
+        }
+    }
+
     let mut pairs = pair.into_inner();
     let subexpression = pairs.next().unwrap();
-    assert!(
-        subexpression.as_rule() == Rule::sequence || subexpression.as_rule() == Rule::alternatives
-    );
+    assert_eq!(subexpression.as_rule(), Rule::alternatives);
 
     let ast = parse_term(subexpression).unwrap();
     let mut options = parse_options(pairs);
     detect_options(&ast, &mut options);
 
-    ExpressionAst { root: ast, options }
+    Ok(ExpressionAst { root: ast, options })
 }
 
 // TODO: Investigate proptest?
-- 
2.43.0


From f9330ebc6d360eb2237510afe48780f0b8fa7730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:39 +0000
Subject: [PATCH 11/30] fix: absurd numbers and backwards ranges panicked
 instead of being errors

A number which does not fit in a usize was silently discarded and then
indexed (`a{99999999999999999999}`) or unwrapped; `a{5,3}` underflowed.
Both are parse errors now.
---
 noodle/src/noodle_grammar.pest |  2 +-
 noodle/src/parser.rs           | 20 ++++++++++++++++++--
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 34574a5..7d11b81 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -6,7 +6,7 @@ COMMENT = _{
 
 // Note: Keep field names human-readable, they end up in error messages
 
-number = @{ ASCII_DIGIT+ }
+number = @{ ASCII_DIGIT{1,9} ~ !ASCII_DIGIT } // Always fits in 32 bits
 
 punctuation = _{ "'" }
 whitespace = _{ "_" }
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 29b5c80..b9eca3d 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -727,13 +727,29 @@ fn check_group(pair: Pair<Rule>) -> Result<()> {
     Ok(())
 }
 
+/// Check that a `Rule::repeat_range` is not backwards
+fn check_repeat_range(pair: Pair<Rule>) -> Result<()> {
+    let span = pair.as_span();
+    let numbers = parse_numbers(pair.into_inner());
+    if numbers[0] > numbers[1] {
+        let message = "the minimum is larger than the maximum".to_string();
+        return Err(PestError::new_from_span(
+            ErrorVariant::CustomError { message },
+            span,
+        ));
+    }
+    Ok(())
+}
+
 /// Build an AST for the given `Rule::expression`
 fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     assert_eq!(pair.as_rule(), Rule::expression);
 
     for pair in pair.clone().into_inner().flatten() {
-        if pair.as_rule() == Rule::group {
-            check_group(pair)?;
+        match pair.as_rule() {
+            Rule::group => check_group(pair)?,
+            Rule::repeat_range => check_repeat_range(pair)?,
+            _ => (),
         }
     }
 
-- 
2.43.0


From 7340d1198c07bf84212f8ba6dd7040b52e1198a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:00 +0000
Subject: [PATCH 12/30] fix: expressions with more than 16384 states wrote out
 of bounds

While an expression is compiled its state sets have a fixed size, and
inserting into them is unchecked: `20000` or `a{20000}` corrupted the
heap. Reject expressions which are too large when they are parsed.
---
 noodle/src/expression.rs | 33 +++++++++++++++++++++++++++++++++
 noodle/src/parser.rs     | 13 +++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 8c3a2d7..0555a42 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -48,6 +48,9 @@ pub struct Expression {
 }
 
 impl Expression {
+    /// The state sets have a fixed size while the `Expression` is being constructed
+    pub(crate) const MAX_STATES: usize = MAX_SET_SIZE;
+
     /// Compile an `Expression` from its string representation
     pub fn new(text: &str) -> parser::Result<Self> {
         let ast_root = parser::ExpressionAst::new_from_str(text)?;
@@ -196,6 +199,36 @@ impl Expression {
         }
     }
 
+    /// Upper bound on the number of states needed for the given `ast` (including the success state).
+    /// This can be called before anagrams are expanded.
+    pub(crate) fn states_bound(ast: &parser::Ast) -> usize {
+        fn bound(ast: &parser::Ast) -> usize {
+            fn sum(terms: &[parser::Ast]) -> usize {
+                terms.iter().map(bound).fold(1, usize::saturating_add)
+            }
+
+            match ast {
+                parser::Ast::CharClass(_) => 1,
+                parser::Ast::Alternatives(terms)
+                | parser::Ast::Sequence(terms)
+                | parser::Ast::Substring(terms) => sum(terms),
+                parser::Ast::Repetition { term, min, max } => {
+                    let repeats = std::cmp::max(1, std::cmp::max(*min, max.unwrap_or(*min)));
+                    bound(term).saturating_mul(repeats).saturating_add(2)
+                }
+                // Every letter is expanded to at most two repetitions, of one character each
+                parser::Ast::Anagram { kind, bank } => match kind {
+                    parser::AnagramKind::TransAdd(n) => bank.len().saturating_add(*n),
+                    _ => bank.len(),
+                }
+                .saturating_mul(6)
+                .saturating_add(3),
+            }
+        }
+
+        bound(ast).saturating_add(1)
+    }
+
     /// Perform an optimization pass on the NFA, modifying `states` so
     /// that it produces an equivalent NFA that can be evaluated more efficiently
     ///
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index b9eca3d..232275d 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -1,3 +1,4 @@
+use crate::expression::Expression;
 use crate::words::*;
 use indexmap::IndexMap;
 use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
@@ -745,6 +746,7 @@ fn check_repeat_range(pair: Pair<Rule>) -> Result<()> {
 fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     assert_eq!(pair.as_rule(), Rule::expression);
 
+    let span = pair.as_span();
     for pair in pair.clone().into_inner().flatten() {
         match pair.as_rule() {
             Rule::group => check_group(pair)?,
@@ -761,6 +763,17 @@ fn parse_expression(pair: Pair<Rule>) -> Result<ExpressionAst> {
     let mut options = parse_options(pairs);
     detect_options(&ast, &mut options);
 
+    // Bound the size of everything that is built from the expression
+    let table_size = Expression::states_bound(&ast)
+        .saturating_mul(options.fuzz.unwrap_or(0).saturating_add(1));
+    if table_size > Expression::MAX_STATES {
+        let message = "expression is too large".to_string();
+        return Err(PestError::new_from_span(
+            ErrorVariant::CustomError { message },
+            span,
+        ));
+    }
+
     Ok(ExpressionAst { root: ast, options })
 }
 
-- 
2.43.0


From fe690c018299c8f625a6e3bbdb062b2d603f0ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 13/30] fix: deeply nested groups overflowed the stack

A few thousand opening parentheses, well below the size limit of a POST
body, were enough to take the process down.
---
 noodle/src/parser.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 232275d..21d4b03 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -3,7 +3,7 @@ use crate::words::*;
 use indexmap::IndexMap;
 use pest::error::{Error as PestError, ErrorVariant, LineColLocation};
 use pest::iterators::{Pair, Pairs};
-use pest::Parser;
+use pest::{Parser, Position};
 use std::fmt;
 
 pub type Result<T> = std::result::Result<T, PestError<Rule>>;
@@ -78,6 +78,7 @@ pub enum AnagramKind {
 
 impl ExpressionAst {
     pub fn new_from_str(input_str: &str) -> Result<Self> {
+        check_nesting(input_str)?;
         let pair = NoodleParser::parse(Rule::expression, input_str)?
             .next()
             .unwrap();
@@ -140,7 +141,8 @@ impl QueryAst {
                 line = line.replace(macro_name, macro_value);
             }
 
-            let mut pair = NoodleParser::parse(Rule::query, &line)
+            let mut pair = check_nesting(&line)
+                .and_then(|_| NoodleParser::parse(Rule::query, &line))
                 .map_err(|e| error_set_line(e, i + 1))?
                 .next()
                 .unwrap()
@@ -709,6 +711,28 @@ fn detect_options(ast: &Ast, options: &mut ExpressionOptions) {
     }
 }
 
+/// Parsing is recursive, so limit the nesting of groups to make sure it cannot overflow the stack
+fn check_nesting(input_str: &str) -> Result<()> {
+    const MAX_NESTING: usize = 100;
+
+    let mut depth: usize = 0;
+    for (i, c) in input_str.char_indices() {
+        match c {
+            '(' => depth += 1,
+            ')' => depth = depth.saturating_sub(1),
+            _ => (),
+        }
+        if depth > MAX_NESTING {
+            let message = "groups are nested too deep".to_string();
+            return Err(PestError::new_from_pos(
+                ErrorVariant::CustomError { message },
+                Position::new(input_str, i).unwrap(),
+            ));
+        }
+    }
+    Ok(())
+}
+
 /// Check that a `Rule::group` with a `:^)`, `:-)` or `:+)` is made up of plain terms
 fn check_group(pair: Pair<Rule>) -> Result<()> {
     let span = pair.as_span();
-- 
2.43.0


From 2c207521bd298d0f5cef83fa5222942c7495422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 14/30] fix: fuzzy matches missed letters at the end, and runs
 of letters

Leaving out a letter of the expression was only possible right before a
letter which did match, so `abc !1` missed "ab" and `xyab !2` missed
"ab", both within the documented edit distance.
---
 noodle/src/expression.rs | 43 +++++++++++++++++++++++++++++-----------
 noodle/src/matcher.rs    | 11 +++-------
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index 0555a42..e53f612 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -477,6 +477,28 @@ impl Expression {
         self.states[state_index].epsilon_states_bitset()
     }
 
+    /// Initialize the transition table for consuming 0 characters: the only states reachable from
+    /// a state are its epsilon transitions, and those with up to `fuzz` insertions.
+    ///
+    /// `RUNTIME: O(fuzz * states^3)`
+    pub fn init_transition_table(&self, transition_table: &mut BitSet3D) {
+        transition_table.borrow_mut().clear();
+        for state_index in 0..self.states.len() {
+            transition_table
+                .slice_mut((state_index, 0))
+                .union_with(self.epsilon_states(state_index));
+            for fuzz_index in 0..self.fuzz {
+                let insertion_set_group = self.char_transitions(
+                    CharBitset::LETTERS,
+                    transition_table.slice((state_index, fuzz_index)),
+                );
+                transition_table
+                    .slice_mut((state_index, fuzz_index + 1))
+                    .copy_from(insertion_set_group.slice(()));
+            }
+        }
+    }
+
     /// Populate a state transition table for a given word
     ///
     /// The transition table has dimensions: `[char][from_state][fuzz][to_state]`,
@@ -487,9 +509,7 @@ impl Expression {
     /// to optimize future searches.
     ///
     /// This function does not initialize the transition table. When starting a word,
-    /// the transition_table[char=0] should be initialized to only contain the starting state:
-    /// The only bits that should be set are `[c][0][0][e]` where `e` is an epsilon transition
-    /// from the starting state. (see `Expression::epsilon_states(0)`)
+    /// the transition_table[char=0] should be initialized with `init_transition_table`.
     ///
     /// If `single_word_only` is true, only entries startin from state 0 are populated,
     /// (i.e. `[c][0][f][t]`). This is an optimization when we know that the user doesn't care
@@ -561,12 +581,16 @@ impl Expression {
                 for fuzz_index in 0..self.fuzz {
                     let state_transitions =
                         lower_table[char_index].slice((state_index, fuzz_index));
+
+                    // Insertion, after the character. (Those before it are already accounted for
+                    // in `state_transitions`)
+                    let insertion_set_group = self.char_transitions(
+                        CharBitset::LETTERS,
+                        upper_table[0].slice((state_index, fuzz_index)),
+                    );
                     let mut fuzzed_next_state_transitions =
                         upper_table[0].slice_mut((state_index, fuzz_index + 1));
-
-                    if state_transitions.is_empty() {
-                        continue;
-                    }
+                    fuzzed_next_state_transitions.union_with(insertion_set_group.slice(()));
 
                     // Deletion
                     fuzzed_next_state_transitions.union_with(state_transitions);
@@ -577,11 +601,6 @@ impl Expression {
                     let change_set = change_set_group.slice(());
                     fuzzed_next_state_transitions.union_with(change_set);
 
-                    // Insertion
-                    let insertion_set_group = self.char_transitions(char_bitset, change_set);
-                    let insertion_set = insertion_set_group.slice(());
-                    fuzzed_next_state_transitions.union_with(insertion_set);
-
                     // Optimization: discard the states we can get to with less fuzz
                     fuzzed_next_state_transitions.difference_with(fuzz_superset.borrow());
                     fuzz_superset
diff --git a/noodle/src/matcher.rs b/noodle/src/matcher.rs
index ec430dc..3f18eb9 100644
--- a/noodle/src/matcher.rs
+++ b/noodle/src/matcher.rs
@@ -227,14 +227,9 @@ impl<'word> WordMatcher<'word> {
 
             // If there is no common prefix, clear the table & populate with initial state
             if prefix_len == 0 {
-                prefixed_table[0].borrow_mut().clear();
-                for src in 0..states_len {
-                    // After consuming 0 chars (and 0 fuzz), the only states reachable from state
-                    // `src` are its epsilon transitions
-                    prefixed_table[0]
-                        .slice_mut((src, 0))
-                        .union_with(self.phrase_matcher.expression.epsilon_states(src));
-                }
+                self.phrase_matcher
+                    .expression
+                    .init_transition_table(&mut prefixed_table[0]);
             }
 
             // Fill the table, but this can return early if the chars are not a match
-- 
2.43.0


From 583dfab9fbe2151f997254a78dd311ab9f01bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 15/30] fix: load_wordlist never returned for a truncated or
 corrupt file

A persistent read error was skipped over and over, like a line which is
not valid UTF-8. Report it as the error that the signature has.
---
 noodle/src/words.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/noodle/src/words.rs b/noodle/src/words.rs
index c57b864..cc0cd15 100644
--- a/noodle/src/words.rs
+++ b/noodle/src/words.rs
@@ -227,10 +227,21 @@ where
     let mut tranche: Tranche = 0;
     let mut word_count: usize = 0;
     let mut skipped_count: usize = 0;
+    let mut read_error: Option<io::Error> = None;
 
     let mut wordlist: Vec<_> = unzip
         .lines()
-        .filter_map(|line| line.ok())
+        .map_while(|line| match line {
+            // Skip over lines which are not valid UTF-8
+            Err(e) if e.kind() == io::ErrorKind::InvalidData => Some(None),
+            // Other errors are persistent, there is nothing left to read
+            Err(e) => {
+                read_error = Some(e);
+                None
+            }
+            Ok(line) => Some(Some(line)),
+        })
+        .flatten()
         .filter_map(|line| {
             // Parse either a plain wordlist, or a 2-column (count, word) variant
             let mut word = line.as_ref();
@@ -270,6 +281,10 @@ where
             Some(word)
         })
         .collect();
+    if let Some(e) = read_error {
+        println!("Unable to read wordlist: {}", e);
+        return Err(());
+    }
     wordlist.sort();
     println!(
         "Loaded {} words with {} tranches (skipped {})",
-- 
2.43.0


From d05b507187a561f753660e2cfdd3d12ea2f88b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 16/30] fix: POSTs which are not UTF-8 and binary websocket
 messages panicked

In the release build, a panic takes the whole server down.
---
 noodle-webapp/src/main.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index c0618da..70ccfbe 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -234,7 +234,10 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
         )))
         .await?;
 
-        let query_ast = parser::QueryAst::new_from_str(msg.to_str().unwrap());
+        let query_str = msg
+            .to_str()
+            .map_err(|_| anyhow!("Websocket message is not text"))?;
+        let query_ast = parser::QueryAst::new_from_str(query_str);
 
         if let Err(e) = &query_ast {
             tx.send(Response::Status("Query parse error".to_string()))
@@ -364,7 +367,7 @@ async fn main() {
         .and(warp::body::content_length_limit(64 * 1024)) // 64kB
         .and(warp::body::bytes())
         .map(|query_str: bytes::Bytes| {
-            run_query_sync(std::str::from_utf8(&query_str).unwrap(), false)
+            run_query_sync(&String::from_utf8_lossy(&query_str), false)
         });
 
     let routes = get_query
-- 
2.43.0


From f41fb9759136b5eea04447cb2b21fcb6ae758149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 17/30] fix: failed websocket queries stayed in
 noodle_queries_active forever

A parse error or a lost connection returned early, without decrementing
the gauge. Tie it to the lifetime of the query.
---
 noodle-webapp/src/main.rs | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 70ccfbe..fd66692 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -60,6 +60,27 @@ lazy_static! {
     static ref ACTIVE_QUERIES: AtomicUsize = AtomicUsize::new(0_usize);
     static ref TOTAL_QUERIES: AtomicUsize = AtomicUsize::new(0_usize);
 }
+
+/// Keeps count of a query in `ACTIVE_QUERIES`, until it is dropped
+struct ActiveQuery {
+    /// Number of other queries which were already active
+    n_others: usize,
+}
+
+impl ActiveQuery {
+    fn new() -> Self {
+        TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
+        let n_others = ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed);
+        ActiveQuery { n_others }
+    }
+}
+
+impl Drop for ActiveQuery {
+    fn drop(&mut self) {
+        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
+    }
+}
+
 static TIMEOUT: Duration = Duration::from_secs(150);
 static TIMEOUT_PLAINTEXT: Duration = Duration::from_secs(10);
 
@@ -154,8 +175,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     //
     // TODO: I don't like that this has a lot of the same code as run_websocket,
     // but it's a pain to abstract out streams due to their long types
-    TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
-    ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed);
+    let _active_query = ActiveQuery::new();
 
     let timeout = if plaintext {
         TIMEOUT_PLAINTEXT
@@ -164,7 +184,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
     };
     let query_ast = parser::QueryAst::new_from_str(query_str);
 
-    let result = match query_ast {
+    match query_ast {
         Ok(mut query_ast) => {
             let mut body = String::new();
             if plaintext && query_ast.options.results_limit.is_none() {
@@ -200,9 +220,7 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
             Ok(body)
         }
         Err(error) => Ok(error.to_string()),
-    };
-    ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
-    result
+    }
 }
 
 /// Websockets interface, for interactive use
@@ -225,12 +243,11 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             .map(|m| m.map_err(Into::into))
             .unwrap_or_else(|| Err(anyhow!("Websocket closed without data")))?;
 
-        TOTAL_QUERIES.fetch_add(1, Ordering::Relaxed);
-        let n_active = { ACTIVE_QUERIES.fetch_add(1, Ordering::Relaxed) };
+        let active_query = ActiveQuery::new();
         let start = Instant::now();
         tx.send(Response::Status(format!(
             "Running query ({} other(s) active)...",
-            n_active
+            active_query.n_others
         )))
         .await?;
 
@@ -309,7 +326,6 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
             };
         }
 
-        ACTIVE_QUERIES.fetch_sub(1, Ordering::Relaxed);
         Ok(())
     }
     .await;
-- 
2.43.0


From f6b00f356a3e00081efa2b315ead021bb99047c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:21 +0000
Subject: [PATCH 18/30] fix: nested repetitions and empty classes were not
 displayed correctly

`(a*)?` was displayed as `a*?`, which does not parse, and `[^a-z]` as
`0`, which is an enumeration.
---
 noodle/src/parser.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 21d4b03..2ae2d55 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -393,8 +393,20 @@ impl QueryAst {
 
 impl fmt::Display for Ast {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        /// Is `ast` displayed as a repetition, without parentheses around it?
+        fn is_repetition(ast: &Ast) -> bool {
+            match ast {
+                Ast::Repetition { .. } => true,
+                Ast::Sequence(nodes) | Ast::Substring(nodes) if nodes.len() == 1 => {
+                    is_repetition(&nodes[0])
+                }
+                _ => false,
+            }
+        }
+
         match self {
             Ast::CharClass(CharBitset::LETTERS) => write!(f, ".")?,
+            Ast::CharClass(CharBitset::EMPTY) => write!(f, "[^a-z]")?,
             Ast::CharClass(char_bitset) => write!(f, "{:?}", char_bitset)?,
             Ast::Alternatives(nodes) => {
                 if let Some(first) = nodes.get(0) {
@@ -423,6 +435,12 @@ impl fmt::Display for Ast {
                     write!(f, ":^)")?;
                 }
             }
+            Ast::Repetition { term, min, max } if is_repetition(term) => {
+                // Suffixes cannot be stacked, so the inner repetition has to be grouped
+                let term = Box::new(Ast::Alternatives(vec![(**term).clone()]));
+                let (min, max) = (*min, *max);
+                write!(f, "{}", Ast::Repetition { term, min, max })?
+            }
             Ast::Repetition {
                 term,
                 min: 0,
-- 
2.43.0


From c07da139af02b37bbdfecce397b8d43bcbfc8f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 19/30] fix: optimizing an expression merged states which were
 not equivalent

Pruning lost the success state when it was merged into an earlier one, and
mixed up the states when several were pruned at once: `b?|cb` did not match
`b`, and other expressions failed an assertion. Combining an epsilon & char
state let other states skip the character.
---
 noodle/src/expression.rs | 87 +++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 42 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index e53f612..d02abf6 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -280,6 +280,8 @@ impl Expression {
         //      - Itself
         //      - The char state
         //      - The epsilon_states of the char state's next state
+        //  - Every other state that can transition to the char state can transition to the epsilon
+        //    state as well (otherwise it would be able to skip the char state once they're combined)
         // This could be more generic if states supported an arbitrary set of edges
         // TODO: this code is pretty inefficient
         // RUNTIME: O(states^3)?
@@ -319,6 +321,15 @@ impl Expression {
                         .contains(char_state.next_state)
                     // ...but point to at most: itself, char_state, and char_state.next_state's epsilons
                     && eps_state.epsilon_states.borrow().is_subset(&allowed_epsilons.borrow())
+                    // No other state transitions to just the char_state
+                    && states.iter().enumerate().all(|(i, state)| {
+                        let epsilons = state.epsilon_states.borrow();
+                        let transitions_to_char =
+                            state.char_bitset != CharBitset::EMPTY && state.next_state == char_index;
+                        i == char_index
+                            || !(transitions_to_char || epsilons.contains(char_index))
+                            || (!transitions_to_char && epsilons.contains(eps_index))
+                    })
             }
 
             // RUNTIME: O(states^2)
@@ -374,13 +385,9 @@ impl Expression {
         // RUNTIME: O(states^3)
         fn prune_epsilon_pairs(states: &mut Vec<State>) {
             let states_len = states.len();
-            let mut state_map: Vec<_> = (0..states_len).collect();
-            let mut state_map_from: Vec<Option<usize>> = (0..states_len).map(Some).collect();
-            let mut deleted: Vec<usize> = vec![];
+            // If the state at `i` is pruned, `replaced_by[i]` is the (equivalent) state to use instead
+            let mut replaced_by: Vec<Option<usize>> = vec![None; states_len];
             for (i, state) in states.iter().enumerate() {
-                // Shift the state index down by the number of states before it that were deleted
-                state_map[i] -= deleted.iter().filter(|&d| *d < i).count();
-
                 // Don't attempt to collapse the first state
                 // Removing it would add a lot of complexity, with little benefit
                 if i == 0 {
@@ -397,47 +404,43 @@ impl Expression {
                 // RUNTIME: O(states^2)
                 let mut similar_states = state.epsilon_states.clone();
                 similar_states.borrow_mut().remove(i);
-                for (i2, state2) in states.iter().enumerate() {
-                    // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i > i2`
-                    if i2 <= i {
-                        continue;
-                    }
-                    if similar_states == state2.epsilon_states {
-                        deleted.push(i2);
-                        state_map[i2] = i;
-                        state_map_from[i2] = None;
-                        state_map_from.iter_mut().for_each(|s| {
-                            if *s == Some(i) {
-                                *s = Some(i2)
-                            }
-                        });
-                        break;
+                // We're doing a "triangle search", and only comparing `states[i] ~ states[i2]` where `i2 > i`
+                // This way the last state, which is the success state, is never pruned
+                replaced_by[i] =
+                    (i + 1..states_len).find(|&i2| similar_states == states[i2].epsilon_states);
+            }
+
+            // Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
+            // Go backwards, so that the replacement of a state is always mapped before it
+            let mut state_map: Vec<usize> = vec![0; states_len];
+            let new_states_len = replaced_by.iter().filter(|r| r.is_none()).count();
+            let mut new_index = new_states_len;
+            for i in (0..states_len).rev() {
+                state_map[i] = match replaced_by[i] {
+                    Some(i2) => state_map[i2],
+                    None => {
+                        new_index -= 1;
+                        new_index
                     }
-                }
+                };
             }
 
-            // Re-create the state table, pruning the `deleted` states
-            // - `state_map_from[i] == None` iff `i` is in `deleted` (and the state is pruned)
-            // - Otherwise, replace the state at `i` with the state at index `state_map_from[i]`
-            // - Everywhere, change references to state `i` to `state_map[i]` (e.g. `next_state`, `epsilon_states`)
+            // Re-create the state table, without the pruned states
             // RUNTIME: O(states^2)
-            let new_states_len = states_len - deleted.len();
-            state_map.iter().for_each(|&s| assert!(s < new_states_len));
-            *states = state_map_from
+            *states = states
                 .iter()
-                .filter_map(|&from| {
-                    from.map(|from_index| {
-                        let state = &states[from_index];
-                        let mut epsilon_states = BitSet1D::new((), new_states_len);
-                        for s in state.epsilon_states.borrow().ones() {
-                            epsilon_states.borrow_mut().insert(state_map[s])
-                        }
-                        State {
-                            char_bitset: state.char_bitset,
-                            next_state: state_map[state.next_state],
-                            epsilon_states,
-                        }
-                    })
+                .zip(replaced_by)
+                .filter(|(_, replaced_by)| replaced_by.is_none())
+                .map(|(state, _)| {
+                    let mut epsilon_states = BitSet1D::new((), new_states_len);
+                    for s in state.epsilon_states.borrow().ones() {
+                        epsilon_states.borrow_mut().insert(state_map[s])
+                    }
+                    State {
+                        char_bitset: state.char_bitset,
+                        next_state: state_map[state.next_state],
+                        epsilon_states,
+                    }
                 })
                 .collect();
         }
-- 
2.43.0


From 5a72a7e15a7f9c8f52e46449d1e7509b18182f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 20/30] fix: repetitions inside of a substring were displayed
 without their group

---
 noodle/src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 2ae2d55..56a9607 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -430,7 +430,14 @@ impl fmt::Display for Ast {
                 if nodes.len() > 1 {
                     write!(f, "(")?;
                 }
-                nodes.iter().try_for_each(|n| write!(f, "{}", n))?;
+                nodes.iter().try_for_each(|n| {
+                    if nodes.len() > 1 && is_repetition(n) {
+                        // Repetitions are only allowed in here if they are grouped
+                        write!(f, "({})", n)
+                    } else {
+                        write!(f, "{}", n)
+                    }
+                })?;
                 if nodes.len() > 1 {
                     write!(f, ":^)")?;
                 }
-- 
2.43.0


From 39fa80ea5358501e72c57b7bc185ba87ecf9a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 21/30] fix: whitespace and comments inside of an anagram
 became part of its letters

---
 noodle/src/noodle_grammar.pest | 3 ++-
 noodle/src/parser.rs           | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/noodle/src/noodle_grammar.pest b/noodle/src/noodle_grammar.pest
index 7d11b81..b5e3620 100644
--- a/noodle/src/noodle_grammar.pest
+++ b/noodle/src/noodle_grammar.pest
@@ -16,7 +16,8 @@ dot = { "." }
 letter_range = { ASCII_ALPHA ~ "-" ~ ASCII_ALPHA }
 invert = { "^" }
 class = { "[" ~ invert? ~ (letter_range | character)+ ~ "]" }
-anagram_body = { ASCII_ALPHA+ }
+anagram_letter = { ASCII_ALPHA }
+anagram_body = { anagram_letter+ }
 
 // Avoid alternatives which share a prefix containing `subexpression`: if the prefix had to be
 // parsed again for each of them, parsing would take exponential time in the nesting depth
diff --git a/noodle/src/parser.rs b/noodle/src/parser.rs
index 56a9607..716cdf7 100644
--- a/noodle/src/parser.rs
+++ b/noodle/src/parser.rs
@@ -520,7 +520,11 @@ fn parse_numbers(pairs: Pairs<'_, Rule>) -> Vec<usize> {
 fn parse_anagram(mut pairs: Pairs<'_, Rule>) -> (Vec<Char>, Option<usize>) {
     let body = pairs.next().unwrap();
     assert_eq!(body.as_rule(), Rule::anagram_body);
-    let bank = body.as_str().chars().map(|c| c.into()).collect();
+    // There may be whitespace & comments between the letters, which are not part of the bank
+    let bank = body
+        .into_inner()
+        .map(|p| p.as_str().chars().next().unwrap().into())
+        .collect();
     let number = parse_numbers(pairs).get(0).cloned();
 
     (bank, number)
-- 
2.43.0


From 5d579c20f11c51316af32cd0b7fcaf7ff3347d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 22/30] fix: the command line's defaults overrode #limit and
 #words in the query

---
 noodle-cli/src/main.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/noodle-cli/src/main.rs b/noodle-cli/src/main.rs
index 86f8521..1f84027 100644
--- a/noodle-cli/src/main.rs
+++ b/noodle-cli/src/main.rs
@@ -15,9 +15,9 @@ struct Opt {
     #[structopt(short = "n", long)]
     count: Option<usize>,
 
-    /// Maximum number of words to combine to make a matching phrase
-    #[structopt(short = "m", long, default_value = "10")]
-    phrase_length: usize,
+    /// Maximum number of words to combine to make a matching phrase [default: 10]
+    #[structopt(short = "m", long)]
+    phrase_length: Option<usize>,
 
     /// Noodle query string
     #[structopt(name = "query")]
@@ -29,8 +29,11 @@ fn main() {
     let words = load_wordlist(opt.input).unwrap();
     let query_ast = parser::QueryAst::new_from_str(&opt.query).unwrap();
     let mut evaluator = QueryEvaluator::from_ast(&query_ast, &words);
-    evaluator.set_results_limit(opt.count);
-    evaluator.set_search_depth_limit(opt.phrase_length);
+    // The flags take precedence over `#limit` & `#words` in the query
+    evaluator.set_results_limit(opt.count.or(query_ast.options.results_limit));
+    if let Some(phrase_length) = opt.phrase_length {
+        evaluator.set_search_depth_limit(phrase_length);
+    }
 
     for result in evaluator {
         if let QueryResponse::Match(phrase) = result {
-- 
2.43.0


From 8f849cb658953a8eeff99cbf6722d70382eb9baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 23/30] fix: a websocket control frame before the query was
 taken for the query

---
 noodle-webapp/src/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index fd66692..1739585 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -237,11 +237,17 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
         // returning mixing in results from the previous query.
         // We're not really using websockets for any performance reason, it's mostly for
         // the robust framing capabilities (which Warp has good support for).
-        let msg = rx
-            .next()
-            .await
-            .map(|m| m.map_err(Into::into))
-            .unwrap_or_else(|| Err(anyhow!("Websocket closed without data")))?;
+        let msg = loop {
+            let msg = rx
+                .next()
+                .await
+                .map(|m| m.map_err(ah::Error::from))
+                .unwrap_or_else(|| Err(anyhow!("Websocket closed without data")))?;
+            // Clients may send control frames at any time, and may leave without a query
+            if !msg.is_ping() && !msg.is_pong() && !msg.is_close() {
+                break msg;
+            }
+        };
 
         let active_query = ActiveQuery::new();
         let start = Instant::now();
-- 
2.43.0


From da0a401311dd1409e5aa7481a5117b9836d931e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:41 +0000
Subject: [PATCH 24/30] fix: a close message which could not be sent at once
 was never sent

---
 noodle-webapp/src/main.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index 1739585..dba02b1 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -338,12 +338,11 @@ async fn run_websocket(websocket: warp::ws::WebSocket) {
     if let Err(e) = r {
         println!("Error: {:?}", e);
     }
-    let _ = tx
-        .into_inner()
-        .reunite(rx.into_inner())
-        .unwrap()
-        .close()
-        .await;
+    let mut websocket = tx.into_inner().reunite(rx.into_inner()).unwrap();
+    if SinkExt::close(&mut websocket).await.is_err() {
+        // The close message may only have been queued: it is an error if it can't be sent at once
+        let _ = websocket.flush().await;
+    }
 }
 
 #[tokio::main(flavor = "multi_thread", worker_threads = 20)]
-- 
2.43.0


From c5f70dc145baf47885dc9faacd400b65acfbdff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 25/30] fix: sorting or filtering before the first query was an
 error of the page

---
 noodle-webapp/static/index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/noodle-webapp/static/index.html b/noodle-webapp/static/index.html
index c8dfb78..ed7f9b0 100644
--- a/noodle-webapp/static/index.html
+++ b/noodle-webapp/static/index.html
@@ -406,7 +406,7 @@
             var feedback = document.querySelector("#feedback");
 
             input.value = decodeURI(window.location.hash.substring(1));
-            window.matches = "";
+            window.matches = [];
 
             function rebuildOutput() {
                 if (sort.checked) {
-- 
2.43.0


From 9e6a9e527d4bb55ba426021ddb027337a95b966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 26/30] fix: the links of results with & # or + looked up only
 a part of them

---
 noodle-webapp/static/index.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/noodle-webapp/static/index.html b/noodle-webapp/static/index.html
index ed7f9b0..d2bb080 100644
--- a/noodle-webapp/static/index.html
+++ b/noodle-webapp/static/index.html
@@ -518,14 +518,14 @@
                         let google = document.createElement("a");
                         google.innerText = "g";
                         google.className = "ext";
-                        google.href = "https://google.com/search?q=define:" + encodeURI(match.fullText);
+                        google.href = "https://google.com/search?q=define:" + encodeURIComponent(match.fullText);
                         google.title = "Google define:" + match.fullText;
                         google.target = "_blank";
 
                         let wiki = document.createElement("a");
                         wiki.innerText = "w";
                         wiki.className = "ext";
-                        wiki.href = "https://en.wikipedia.org/w/index.php?ns0=1&search=" + encodeURI(match.fullText);
+                        wiki.href = "https://en.wikipedia.org/w/index.php?ns0=1&search=" + encodeURIComponent(match.fullText);
                         wiki.title = "Wikipedia " + match.fullText;
                         wiki.target = "_blank";
 
@@ -533,7 +533,7 @@
                         cxio.innerText = "x";
                         cxio.className = "ext";
                         cxio.title = "crossword-solver.io clue " + match.fullText;
-                        cxio.href = "https://crossword-solver.io/clue/" + encodeURI(match.fullText);
+                        cxio.href = "https://crossword-solver.io/clue/" + encodeURIComponent(match.fullText);
                         cxio.target = "_blank";
 
                         match.block.appendChild(copy);
-- 
2.43.0


From 7c1d00c14a6e2c1339ab597eb522e4a50acf6f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:13 +0000
Subject: [PATCH 27/30] fix: words with an en dash were dropped instead of
 getting a hyphen

---
 listgen/listgen.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/listgen/listgen.py b/listgen/listgen.py
index 3b49341..7a7cf46 100644
--- a/listgen/listgen.py
+++ b/listgen/listgen.py
@@ -115,13 +115,12 @@ def strip_word(word: str) -> str:
     #     - (Usually domains are filterd out by the ":" check, this is a backstop of sorts)
     if not any_letter_re.match(word):
         return ""
-    match = strip_word_re.match(word)
+    match = strip_word_re.match(word.replace("–", "-"))
     if not match:
         return ""
     word = match.group(1)
     if "_" in word:
         return ""
-    word = word.replace("–", "-")
     if "www." in word or domain_re.match(word):
         return ""
     return word
-- 
2.43.0


From e85dbb5233044c8726838e4688e0ca81070246b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:47 +0000
Subject: [PATCH 28/30] fix: compiling large expressions took minutes: a{16000}

The pairs of states to collapse were compared by copying their sets before any of the
cheap conditions was looked at, which took 240 s for an expression which is accepted.
---
 noodle/src/expression.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/noodle/src/expression.rs b/noodle/src/expression.rs
index d02abf6..71f781f 100644
--- a/noodle/src/expression.rs
+++ b/noodle/src/expression.rs
@@ -297,11 +297,17 @@ impl Expression {
                 let eps_state = &states[eps_index];
                 let char_state = &states[char_index];
 
-                let mut allowed_epsilons = char_state.epsilon_states.clone();
-                allowed_epsilons.borrow_mut().insert(eps_index);
-                allowed_epsilons
-                    .borrow_mut()
-                    .union_with(states[char_state.next_state].epsilon_states.borrow());
+                let only_contains_allowed_epsilons = || {
+                    let mut allowed_epsilons = char_state.epsilon_states.clone();
+                    allowed_epsilons.borrow_mut().insert(eps_index);
+                    allowed_epsilons
+                        .borrow_mut()
+                        .union_with(states[char_state.next_state].epsilon_states.borrow());
+                    eps_state
+                        .epsilon_states
+                        .borrow()
+                        .is_subset(&allowed_epsilons.borrow())
+                };
 
                 true
                     // We can't delete the first state
@@ -320,7 +326,7 @@ impl Expression {
                         .borrow()
                         .contains(char_state.next_state)
                     // ...but point to at most: itself, char_state, and char_state.next_state's epsilons
-                    && eps_state.epsilon_states.borrow().is_subset(&allowed_epsilons.borrow())
+                    && only_contains_allowed_epsilons()
                     // No other state transitions to just the char_state
                     && states.iter().enumerate().all(|(i, state)| {
                         let epsilons = state.epsilon_states.borrow();
-- 
2.43.0


From a1f94950247a5f73cbe256ea8ebb526bed4ce4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:09 +0000
Subject: [PATCH 29/30] fix: the page did not work if the query in its address
 was cut off within an escape

---
 noodle-webapp/static/index.html | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/noodle-webapp/static/index.html b/noodle-webapp/static/index.html
index d2bb080..f226e5c 100644
--- a/noodle-webapp/static/index.html
+++ b/noodle-webapp/static/index.html
@@ -405,7 +405,12 @@
             var customWordlist = document.querySelector("#custom-wordlist");
             var feedback = document.querySelector("#feedback");
 
-            input.value = decodeURI(window.location.hash.substring(1));
+            try {
+                input.value = decodeURI(window.location.hash.substring(1));
+            } catch (e) {
+                // Not encoded properly, the link may have been cut off
+                input.value = window.location.hash.substring(1);
+            }
             window.matches = [];
 
             function rebuildOutput() {
-- 
2.43.0


From 6f30413d08a02dd554f6e742ff56399a2af0e116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:08 +0000
Subject: [PATCH 30/30] fix: GET and POST queries did not time out as long as
 there were results

---
 noodle-webapp/src/main.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/noodle-webapp/src/main.rs b/noodle-webapp/src/main.rs
index dba02b1..1b64357 100644
--- a/noodle-webapp/src/main.rs
+++ b/noodle-webapp/src/main.rs
@@ -194,7 +194,13 @@ fn run_query_sync(query_str: &str, plaintext: bool) -> http::Result<impl warp::R
             let dict = words(query_ast.options.dictionary.as_ref().map(|s| &s[..]).unwrap_or(DEFAULT_WORDLIST));
             let mut evaluator = QueryEvaluator::from_ast(&query_ast, dict);
             loop {
-                match evaluator.next_within_deadline(Some(deadline)) {
+                // The evaluator may find the next result before it looks at the clock, each time
+                let response = if Instant::now() > deadline {
+                    QueryResponse::Timeout
+                } else {
+                    evaluator.next_within_deadline(Some(deadline))
+                };
+                match response {
                     QueryResponse::Match(p) => {
                         if plaintext {
                             for word in p.iter() {
-- 
2.43.0

