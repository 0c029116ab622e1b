From e38c4384c66b670fc9b054bd8f6edd93c4c02611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 01/11] fix: grow the char buffer in parse_not_extended

Queries of more than 64 characters indexed past the end of the buffer.
---
 src/metrics/fzf/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metrics/fzf/parser.rs b/src/metrics/fzf/parser.rs
index 08647e8..a68408f 100644
--- a/src/metrics/fzf/parser.rs
+++ b/src/metrics/fzf/parser.rs
@@ -170,6 +170,12 @@ impl FzfParser {
     /// ```
     #[inline]
     pub fn parse_not_extended<'a>(&'a mut self, query: &str) -> FzfQuery<'a> {
+        let max_chars = query.len();
+
+        if self.chars.len() < max_chars {
+            self.chars.resize(max_chars, char::default());
+        }
+
         let mut char_len = 0;
 
         for ch in query.chars() {
-- 
2.43.0


From 25db030bb99f65e123bdab889ee44f100f3e455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 02/11] fix: keep the negation of a lone negated fuzzy pattern

`!'foo` was matched as `foo` because the non-extended mode ignores `is_inverse`.
---
 src/metrics/fzf/query.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/query.rs b/src/metrics/fzf/query.rs
index fdf913b..af93cc5 100644
--- a/src/metrics/fzf/query.rs
+++ b/src/metrics/fzf/query.rs
@@ -49,7 +49,8 @@ impl<'a> FzfQuery<'a> {
     #[inline]
     pub(super) fn new_extended(conditions: &'a [Condition<'a>]) -> Self {
         // If there's only one condition with a single pattern, and that
-        // pattern is fuzzy, then we can use the non-extended search mode.
+        // pattern is fuzzy and not negated, then we can use the non-extended
+        // search mode.
         if conditions.len() == 1 {
             let mut patterns = conditions[0].iter();
 
@@ -59,6 +60,7 @@ impl<'a> FzfQuery<'a> {
 
             if patterns.next().is_none()
                 && matches!(first_pattern.match_type, MatchType::Fuzzy)
+                && !first_pattern.is_inverse
             {
                 return Self {
                     search_mode: SearchMode::NotExtended(first_pattern),
-- 
2.43.0


From ec5b8de48dba952aeba95de47ef4014a3c5c620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 03/11] fix: give numbers the boundary bonus at a word boundary

fzf checks for a boundary before it checks for a letter-number transition.
---
 src/metrics/fzf/scoring.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/metrics/fzf/scoring.rs b/src/metrics/fzf/scoring.rs
index cdbee33..1a6db96 100644
--- a/src/metrics/fzf/scoring.rs
+++ b/src/metrics/fzf/scoring.rs
@@ -89,7 +89,14 @@ pub(super) fn compute_bonus(
 
         Upper if prev_class == Lower => bonus::CAMEL_123,
 
-        Number if prev_class != Number => bonus::CAMEL_123,
+        Number
+            if !matches!(
+                prev_class,
+                Number | WhiteSpace | NonWord | Delimiter
+            ) =>
+        {
+            bonus::CAMEL_123
+        },
 
         _ => {
             if prev_class == WhiteSpace {
-- 
2.43.0


From 78c526979f518961649f4b9bd79ff08426c3cab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 04/11] fix: don't lose part of a range that spans other
 matched ranges

---
 src/matched_ranges.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 664ad61..6146866 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -68,6 +68,8 @@ impl<'a> MatchedRanges<'a> {
     /// TODO: docs
     #[inline(always)]
     pub(crate) fn insert(&mut self, new_range: Range<usize>) {
+        self.remove_contained_in(&new_range);
+
         let insert_idx = match self
             .binary_search_by(|range| range.start.cmp(&new_range.start))
         {
@@ -210,6 +212,19 @@ impl<'a> MatchedRanges<'a> {
         self.ranges.remove(self.initial_len + idx)
     }
 
+    /// Removes the ranges that are completely contained within the given one.
+    #[inline(always)]
+    fn remove_contained_in(&mut self, range: &Range<usize>) {
+        let ranges = &self.ranges[self.initial_len..];
+        let start = ranges.partition_point(|r| r.start < range.start);
+        let end = ranges.partition_point(|r| r.end <= range.end);
+
+        if start < end {
+            let len = self.initial_len;
+            self.ranges.drain(len + start..len + end);
+        }
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn split_at_mut(
-- 
2.43.0


From b71aa6c23742db284df7025deeb8a9b9e826a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 05/11] fix: leave the ranges untouched when a later condition
 doesn't match

---
 src/matched_ranges.rs  |  6 ++++++
 src/metrics/fzf/fzf.rs | 11 +++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 6146866..734e61e 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -50,6 +50,12 @@ impl core::fmt::Debug for MatchedRanges<'_> {
 }
 
 impl<'a> MatchedRanges<'a> {
+    /// Removes all the inserted ranges, leaving only the initial ones.
+    #[inline(always)]
+    pub(crate) fn clear(&mut self) {
+        self.ranges.truncate(self.initial_len);
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn binary_search_by<'r, F>(&'r self, fun: F) -> Result<usize, usize>
diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 7eb0339..e09db95 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -163,9 +163,16 @@ pub(super) trait Fzf {
             SearchMode::Extended(conditions) => {
                 let mut total_score: Score = 0;
                 for condition in conditions {
-                    total_score += condition.iter().find_map(|pattern| {
+                    let score = condition.iter().find_map(|pattern| {
                         self.score::<RANGES>(pattern, candidate, ranges)
-                    })?;
+                    });
+
+                    let Some(score) = score else {
+                        ranges.clear();
+                        return None;
+                    };
+
+                    total_score += score;
                 }
                 Some(FzfDistance::from_score(total_score))
             },
-- 
2.43.0


From ee5c5470607b29604ef17659a91f2b8a774efeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 06/11] fix: use the class of the preceding char when an exact
 match restarts

The class of the last char the previous attempt looked at was used instead.
---
 src/metrics/fzf/fzf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index e09db95..2021f42 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -205,8 +205,6 @@ fn exact_match<const RANGES: bool>(
     // TODO: docs
     let mut matched = false;
 
-    let mut prev_class = scheme.initial_char_class;
-
     let mut start_offset = 0;
 
     'outer: loop {
@@ -215,6 +213,12 @@ fn exact_match<const RANGES: bool>(
         let mut current_bonus: Score = 0;
         let mut pattern_char_idx = 0;
 
+        let mut prev_class = if start_offset == 0 {
+            scheme.initial_char_class
+        } else {
+            char_class(candidate.char(start_offset - 1), scheme)
+        };
+
         let mut chars = candidate.chars_from(start_offset).enumerate();
 
         for (char_offset, candidate_ch) in chars.by_ref() {
-- 
2.43.0


From e5c9860597f8390e0298ad5074e216fc4a7e0b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 07/11] fix: clamp the cells of FzfV2's scoring matrix to zero

`Score` is signed, so `saturating_sub` lets gap penalties go negative.
---
 src/metrics/fzf/fzf_v2.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 7b4061d..6f95470 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -444,7 +444,7 @@ fn score_first_row(
         penalty = penalty::GAP_START;
 
         for col in column + 1..char_offset {
-            let score = prev_score.saturating_sub(penalty);
+            let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
             prev_score = score;
             penalty = penalty::GAP_EXTENSION;
@@ -469,7 +469,7 @@ fn score_first_row(
     }
 
     for col in column + 1..scores_first_row.len() {
-        let score = prev_score.saturating_sub(penalty);
+        let score = (prev_score - penalty).max(0);
         scores_first_row[col] = score;
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
@@ -514,14 +514,14 @@ fn score_remaining_rows(
 
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
-                let score = score_left.saturating_sub(penalty);
+                let score = (score_left - penalty).max(0);
                 scores_row[col] = score;
                 penalty = penalty::GAP_EXTENSION;
             }
 
             column = char_offset;
 
-            let score_left = scores_row[column - 1].saturating_sub(penalty);
+            let score_left = (scores_row[column - 1] - penalty).max(0);
 
             let mut score_up_left = prev_scores_row[column - 1] + bonus::MATCH;
 
@@ -560,7 +560,7 @@ fn score_remaining_rows(
 
         for col in column + 1..matrix_width {
             let score_left = scores_row[col - 1];
-            let score = score_left.saturating_sub(penalty);
+            let score = (score_left - penalty).max(0);
             scores_row[col] = score;
             penalty = penalty::GAP_EXTENSION;
         }
-- 
2.43.0


From 976901459aa461c4547940bb38feecf1e855e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:05 +0000
Subject: [PATCH 08/11] fix: only take FzfV2's score from a match of the whole
 pattern

A high score in an earlier row gave the score and the ranges of a prefix of the query.
---
 src/metrics/fzf/fzf_v2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 6f95470..e5c9c3c 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -493,6 +493,11 @@ fn score_remaining_rows(
     let matrix_width = scores.width();
 
     for row_idx in 1..scores.height() {
+        // Only the cells in the last row score a match of the whole pattern.
+        if row_idx + 1 == scores.height() {
+            max_score = 0;
+        }
+
         let pattern_char = pattern.char(row_idx);
 
         let (prev_scores_row, scores_row) =
-- 
2.43.0


From fc6fb818a036cf832abf087e0205d87ff73e0433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:10 +0000
Subject: [PATCH 09/11] fix: ignore the case of letters outside ASCII in
 case-insensitive searches

---
 src/utils.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 61f16b6..77db237 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -15,12 +15,12 @@ pub fn ascii_letter_flip_case(ascii_letter: u8) -> u8 {
 
 #[inline(always)]
 pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&rhs)
+    lhs.eq_ignore_ascii_case(&rhs) || non_ascii_case_insensitive_eq(lhs, rhs)
 }
 
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&normalize_candidate_char(lhs, rhs))
+    case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
 }
 
 #[inline(always)]
@@ -49,6 +49,14 @@ fn leading_spaces(s: &str) -> usize {
     s.bytes().take_while(|&b| b == b' ').count()
 }
 
+/// Whether two non-ASCII characters only differ in case.
+#[inline]
+fn non_ascii_case_insensitive_eq(lhs: char, rhs: char) -> bool {
+    !lhs.is_ascii()
+        && !rhs.is_ascii()
+        && lhs.to_lowercase().eq(rhs.to_lowercase())
+}
+
 /// TODO: docs
 #[inline(always)]
 fn normalize_candidate_char(query_char: char, candidate_char: char) -> char {
-- 
2.43.0


From bae28d78f93a2cc78cd9a8c53ec9384ddf170913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 10/11] fix: a gap goes on past a character that scores more
 skipped than matched (FzfV2)

---
 src/metrics/fzf/fzf_v2.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index e5c9c3c..b7673ba 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -515,8 +515,6 @@ fn score_remaining_rows(
         for char_offset in
             candidate.matches_from(first_match_offset, pattern_char)
         {
-            penalty = penalty::GAP_START;
-
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
                 let score = (score_left - penalty).max(0);
@@ -553,6 +551,14 @@ fn score_remaining_rows(
 
             let score = score_left.max(score_up_left);
 
+            // If skipping this character scores more than matching it, the
+            // gap it's in goes on.
+            penalty = if score_up_left < score_left {
+                penalty::GAP_EXTENSION
+            } else {
+                penalty::GAP_START
+            };
+
             if score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
-- 
2.43.0


From 3dcd8b9eb0a3c6cee3805845ce99a33b8dac4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 11/11] fix: a gap after the last match of the first character
 starts anew (FzfV2)

---
 src/metrics/fzf/fzf_v2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index b7673ba..6645a39 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -441,8 +441,6 @@ fn score_first_row(
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
-        penalty = penalty::GAP_START;
-
         for col in column + 1..char_offset {
             let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
@@ -466,6 +464,8 @@ fn score_first_row(
         }
 
         prev_score = score;
+
+        penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
-- 
2.43.0

