From 01bb69d02146d3bfa058e5efdf4d03e66f8b3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 01/18] fix: SameStageVec::parse (and AnnotBlock::parse)
 panicked on the empty string

---
 src/row/same_stage_vec.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 696b116..9f31568 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -103,7 +103,8 @@ impl SameStageVec {
 
         // Parse the first line before creating the `SameStageVec` (since we need to know upfront
         // what the stage is going to be).
-        let (_one, first_line) = line_iter.next().unwrap(); // strings always contain at least one line
+        // `str::lines` yields nothing for an empty string, which is treated as a single empty line.
+        let (_one, first_line) = line_iter.next().unwrap_or((1, ""));
         let first_row =
             RowBuf::parse(first_line).map_err(|err| ParseError::InvalidRow { line_num: 1, err })?;
         // Create a `SameStageVec`, which starts out containing the first row
-- 
2.43.0


From d5c8242bd710ede67d6e2175c82b1f99b309a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 02/18] fix: AnnotBlock::extend_range copied every annotation
 of the other block, not just those in the range

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cd0ef2c..e49fade 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -332,7 +332,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots.iter().cloned());
+        self.annots.extend(other.annots[range].iter().cloned());
 
         Ok(())
     }
-- 
2.43.0


From 3aa826032e8403a042c037116c9f9512798d62bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 03/18] fix: SameStageVec::extend_range_transposed accepted a
 buffer of a different stage, creating invalid rows

---
 src/row/same_stage_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 9f31568..4ed64ab 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -304,6 +304,7 @@ impl SameStageVec {
         range: impl RangeBounds<usize>,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        IncompatibleStages::test_err(self.stage, other.stage)?;
         // TODO: Write a vectorised routine for this
         self.bells.extend(
             other.bells[other.to_bell_range(range)]
-- 
2.43.0


From 057def4cdb00dbb1bf464b9605dc9e51e8d23d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 04/18] fix: Bell was serialized as its index but deserialized
 as its number

---
 src/bell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bell.rs b/src/bell.rs
index 5070f21..1c448d8 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -400,6 +400,6 @@ impl Serialize for Bell {
     where
         S: Serializer,
     {
-        serializer.serialize_u64(self.index as u64)
+        serializer.serialize_u64(self.number() as u64)
     }
 }
-- 
2.43.0


From db9b67c071aee66f083baf83146c3343fb2752af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 05/18] fix: deserializing a Stage of zero bells panicked
 instead of returning an error

---
 src/stage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index cadc537..13b7523 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -383,7 +383,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i16<E>(self, v: i16) -> Result<Self::Value, E>
@@ -397,7 +397,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
@@ -411,7 +411,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        try_parse_stage(v as i64)
     }
 
     fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
@@ -425,7 +425,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -445,7 +445,7 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
     if val >= 0 {
-        Ok(Stage::new(val as usize))
+        Stage::try_from(val as usize).map_err(E::custom)
     } else {
         Err(E::custom(format!("negative Stage: {}", val)))
     }
-- 
2.43.0


From ca5fc8faf3ab2dfd00181daa23ea3600dcaa2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:51 +0000
Subject: [PATCH 06/18] fix: Row::fast_hash overflowed on 16 bells or more

---
 src/row/borrowed.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 7c2f89a..e55c44f 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -802,11 +802,13 @@ impl Row {
     /// if they are in fact the same.  This is ludicrously inefficient in terms of hash density,
     /// but it is fast and perfect and in most cases will suffice.
     pub fn fast_hash(&self) -> usize {
-        let mut accum = 0;
-        let mut multiplier = 1;
+        // Wrapping arithmetic is required because the final multiplication overflows on 16 bells (and
+        // everything can overflow on higher stages)
+        let mut accum = 0usize;
+        let mut multiplier = 1usize;
         for b in self.bell_iter() {
-            accum += b.index() * multiplier;
-            multiplier *= self.stage().num_bells();
+            accum = accum.wrapping_add(b.index().wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(self.stage().num_bells());
         }
         accum
     }
-- 
2.43.0


From 3afcbcc01ba7d9142488c5d82f23a91401e2a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 07/18] fix: Bell and Stage could not be deserialized from
 their names in human-readable formats

---
 src/bell.rs  | 6 +++++-
 src/stage.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/bell.rs b/src/bell.rs
index 1c448d8..5b47aa3 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -389,7 +389,11 @@ impl<'de> Deserialize<'de> for Bell {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_u64(BellVisitor)
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(BellVisitor)
+        } else {
+            deserializer.deserialize_u64(BellVisitor)
+        }
     }
 }
 
diff --git a/src/stage.rs b/src/stage.rs
index 13b7523..086774a 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -457,7 +457,11 @@ impl<'de> Deserialize<'de> for Stage {
     where
         D: Deserializer<'de>,
     {
-        deserializer.deserialize_u64(StageVisitor)
+        if deserializer.is_human_readable() {
+            deserializer.deserialize_any(StageVisitor)
+        } else {
+            deserializer.deserialize_u64(StageVisitor)
+        }
     }
 }
 
-- 
2.43.0


From 9dadafafeb5219f109f342f5d60007f74718e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 08/18] fix: Mask::as_row made invalid rows from unsatisfiable
 masks and missed rows given by all but one bell

---
 src/mask.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 5203a18..a4ed21b 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -163,13 +163,15 @@ impl Mask {
 
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
-        if self.bells.iter().all(Option::is_some) {
-            // This unsafety is OK because we assert an invariant that masks are subsets of rows
-            // (and thus a complete mask satisfies all the invariants of rows).
-            Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.iter().map(|b| b.unwrap())) })
-        } else {
-            None
-        }
+        // If exactly one place is unspecified, then it can only be filled by the one unused bell
+        let missing_bell = match self.unspecified_places().count() {
+            0 => None,
+            1 => Some(self.stage().bells().find(|b| self.place_of(*b).is_none())?),
+            _ => return None,
+        };
+        // Masks are not guaranteed to be subsets of rows (e.g. `11` or `13`), so the row has to be
+        // checked
+        RowBuf::from_bell_iter(self.bells.iter().filter_map(|b| b.or(missing_bell))).ok()
     }
 
     /// Returns `true` if the set of [`Row`]s satisfying `self` is a subset of those satisfying
@@ -180,6 +182,12 @@ impl Mask {
             return false;
         }
 
+        // If only one row satisfies `self`, then that row might satisfy `other` even if `self` doesn't
+        // explicitly specify all of its bells
+        if let Some(row) = self.as_row() {
+            return other.matches(&row);
+        }
+
         // Now check that every bell required by `other` is also required by `self`
         for (b1, b2) in self.bells.iter().zip_eq(&other.bells) {
             match (*b1, *b2) {
-- 
2.43.0


From 32df8fd04de9e50226f3d07201c8be36b9132816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 09/18] fix: matching or comparing a Mask with no places
 panicked

---
 src/mask.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index a4ed21b..d0507f9 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -101,7 +101,7 @@ impl Mask {
     /// Tests whether or not a [`Row`] satisfies this `Mask`.
     pub fn matches(&self, row: &Row) -> bool {
         // Rows can't match masks of different stages
-        if self.stage() != row.stage() {
+        if self.bells.len() != row.stage().num_bells() {
             return false;
         }
 
@@ -178,7 +178,7 @@ impl Mask {
     /// `other`.
     pub fn is_subset_of(&self, other: &Mask) -> bool {
         // Two rows which are of different stages can't have a superset/subset relation
-        if self.stage() != other.stage() {
+        if self.bells.len() != other.bells.len() {
             return false;
         }
 
@@ -213,7 +213,7 @@ impl Mask {
     /// `a.combine(b).is_some()`.
     pub fn is_compatible_with(&self, other: &Mask) -> bool {
         // Masks of different stages are always incompatible
-        if self.stage() != other.stage() {
+        if self.bells.len() != other.bells.len() {
             return false;
         }
 
-- 
2.43.0


From 0e2c5b96c981c9d6e32a077c23fedf613e014280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:09 +0000
Subject: [PATCH 10/18] fix: Regex::num_matching_rows miscounted wildcards,
 ignored globs and panicked on unsatisfiable regexes

---
 src/music.rs | 49 +++++++++++++++++++++++++++++++------------------
 src/utils.rs | 37 +------------------------------------
 2 files changed, 32 insertions(+), 54 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 65710c4..c57269e 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -3,10 +3,9 @@ use std::{
     iter::once,
 };
 
-use factorial::Factorial;
 use itertools::Itertools;
 
-use crate::{utils, Bell, Row, Stage};
+use crate::{Bell, Row, Stage};
 
 /// A single element of a [`Regex`] expression.
 #[derive(Debug, Clone, Copy, Eq, PartialEq, Hash)]
@@ -291,8 +290,8 @@ impl Regex {
         // assign a bell to each of the 'x's, then (for each of these assignments) partition the
         // remaining bells between the '*'s.
         //
-        // The number of assignments of `n` bells into `i` 'x's is simply `n choose i`.  Now we're
-        // left with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
+        // The number of assignments of `n` bells into `i` 'x's is `n! / (n - i)!`.  Now we're left
+        // with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
         // simple, but nonetheless there is a nice way to re-frame the problem: instead of
         // distributing the bells into `j` '*'s, we choose to split the bells up by inserting
         // `j - 1` identical barriers.
@@ -304,35 +303,49 @@ impl Regex {
         //
         // Now to find the formula: there are `(n - i + j - 1)!` arrangements of the bells and
         // barriers, but the barriers are all identical so these permutations are over-counted by
-        // `(j - 1)!` times (assuming that `(-1)! = 1`).  Putting this together, for each way of
-        // assigning bells to 'x's there are `(n - i + j - 1)! / (j - 1)!` ways to distribute the
-        // remaining bells into the '*'s.
+        // `(j - 1)!` times.  Putting this together, for each way of assigning bells to 'x's there
+        // are `(n - i + j - 1)! / (j - 1)!` ways to distribute the remaining bells into the '*'s.
+        // If there are no '*'s, then there is one way if no bells remain and no way otherwise.
         //
         // Multiplying both of these terms will give the total number of matching `Row`s
 
         // Compute the values of `n` (num_unfixed), `i` (num_wildcards) and `j` (num_globs) by
         // iterating over the regex and counting.
+        let mut is_bell_unfixed = vec![true; stage.num_bells()];
         let mut num_unfixed = stage.num_bells(); // `n`, decremented for each fixed bell
         let mut num_wildcards = 0usize; // `i`
         let mut num_globs = 0usize; // `j`
         for e in &self.elems {
             match e {
-                RegexElem::Bell(_) => num_unfixed -= 1,
+                RegexElem::Bell(b) => {
+                    // No rows contain a bell twice, or a bell which is outside the stage
+                    if !is_bell_unfixed.get(b.index()).copied().unwrap_or(false) {
+                        return Some(0);
+                    }
+                    is_bell_unfixed[b.index()] = false;
+                    num_unfixed -= 1;
+                }
                 RegexElem::Any => num_wildcards += 1,
                 RegexElem::Glob => num_globs += 1,
             }
         }
 
-        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?;
-
-        // TODO: Compute the fraction directly to limit potential for overflow
-        let num_bells_in_globs = num_unfixed - num_wildcards;
-        let ways_to_fill_globs_numerator =
-            (num_bells_in_globs + num_wildcards.saturating_sub(1)).checked_factorial()?;
-        let ways_to_fill_globs_denominator = num_globs.saturating_sub(1).checked_factorial()?;
-        let ways_to_fill_globs = ways_to_fill_globs_numerator / ways_to_fill_globs_denominator;
-
-        Some(ways_to_fill_wildcards * ways_to_fill_globs)
+        let num_bells_in_globs = match num_unfixed.checked_sub(num_wildcards) {
+            Some(0) => 0,
+            Some(n) if num_globs > 0 => n,
+            // Either there are too few bells to fill the 'x's, or bells are left over with no '*'s
+            // to put them in
+            _ => return Some(0),
+        };
+
+        // Both terms are products of consecutive numbers:
+        // - `n! / (n - i)!` is `(n - i + 1) * ... * n`
+        // - `(n - i + j - 1)! / (j - 1)!` is `j * ... * (n - i + j - 1)`
+        let ways_to_fill_wildcards = num_bells_in_globs + 1..num_unfixed + 1;
+        let ways_to_fill_globs = num_globs..num_globs + num_bells_in_globs;
+        ways_to_fill_wildcards
+            .chain(ways_to_fill_globs)
+            .try_fold(1usize, |total, factor| total.checked_mul(factor))
     }
 
     /// Returns `true` if a given [`Row`] satisfies this `Regex`, and `false` otherwise.  If the
diff --git a/src/utils.rs b/src/utils.rs
index 7c08383..cb0a015 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,7 +1,4 @@
-use std::{
-    cmp,
-    ops::{Bound, Range, RangeBounds},
-};
+use std::ops::{Bound, Range, RangeBounds};
 
 use crate::Bell;
 use itertools::Itertools;
@@ -46,38 +43,6 @@ pub fn split_vec<T>(vec: Vec<T>, index: usize) -> Option<(Vec<T>, Vec<T>)> {
     Some((left_vec, right_vec))
 }
 
-/// Computes `n choose k`, returning `None` if the computation would cause [`usize`] to overflow.
-pub fn choice(n: usize, k: usize) -> Option<usize> {
-    //                    n!
-    // n choose k = -------------
-    //              k! * (n - k)!
-    //
-    //                     1*2*3*...*n
-    //            = ------------------------     (expanding the factorials)
-    //              k! * (1*2*3*...*(n - k))
-    //
-    //              (n-k+1)*(n-k+2)*...*n
-    //            = ---------------------     (cancelling)
-    //                       k!
-    //
-    // This minimises the risk of overflow, since we only have to directly compute `n! / k!` and
-    // `k!`, both of which are smaller than `n!` and `(n - k)! * k!`.  This lessens the risk of
-    // overflow.
-
-    // Replace `k` with `min(k, n - k)` because `n choose k = n choose (n - k)` for all n, k and we
-    // want to do as few loop iterations as possible.
-    let k = cmp::min(k, n - k);
-    // PERF: Check for overflow upfront?
-    let mut numerator = 1usize;
-    let mut denominator = 1usize;
-    for i in 1..=k {
-        numerator = numerator.checked_mul(n - k + i)?; // computes (n-k+1) * (n-k+2) * ... * (n-k+k = n)
-        denominator *= i; // computes 1 * 2 * 3 * ... * k.  We don't need to check for overflow
-                          // because `numerator >= denominator`
-    }
-    Some(numerator / denominator)
-}
-
 #[cfg(test)]
 mod tests {
     use crate::{run_len as rl, RowBuf};
-- 
2.43.0


From ae8e17d7907d8a9eed42d6863bee15845b253f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 11/18] fix: PnBlock::parse reported wrong positions for errors
 after a comma and ranges past the end of the string

---
 src/place_not.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/place_not.rs b/src/place_not.rs
index 6532142..af535b3 100644
--- a/src/place_not.rs
+++ b/src/place_not.rs
@@ -515,8 +515,7 @@ impl PnBlock {
         // Tracks the index of the first byte in the chunk of PN currently being read.  This is
         // used so that we can return a byte range in the case of an error
         let mut current_pn_start_index = 0;
-        for (i, m) in tok_indices {
-            let index = i + byte_offset;
+        for (index, m) in tok_indices {
             match m {
                 // If the char is a bell name, then add it to the places
                 CharMeaning::Bell(b) => {
@@ -537,7 +536,7 @@ impl PnBlock {
                         // This unsafety is OK, because we have just sorted the slice
                         let new_pn = unsafe {
                             PlaceNot::from_sorted_slice(&places, stage).map_err(|e| {
-                                PnBlockParseError::PnError(current_pn_start_index..index + 1, e)
+                                PnBlockParseError::PnError(current_pn_start_index..index, e)
                             })
                         }?;
                         places.clear();
-- 
2.43.0


From f66ab93c851bb62cb3a607524956d6a46f9febe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:39 +0000
Subject: [PATCH 12/18] fix: creating a Method on a stage without a name
 panicked

---
 src/method/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/method/mod.rs b/src/method/mod.rs
index e0a5fc8..f734603 100644
--- a/src/method/mod.rs
+++ b/src/method/mod.rs
@@ -216,7 +216,7 @@ pub fn generate_title(name: &str, class: FullClass, stage: Stage) -> String {
         s.push(' ');
     }
     // Always push the stage
-    s.push_str(stage.name().expect("Stage was too big to generate a name"));
+    s.push_str(&stage.to_string());
 
     s
 }
-- 
2.43.0


From 74900fb27f36d3905b582b88d4280fcf48d4f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 13/18] fix: MethodLib::from_json panicked on invalid class IDs
 and on zero stages

---
 src/method_lib/lib_serde.rs | 19 +++++++++++--------
 src/method_lib/mod.rs       |  5 ++++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/method_lib/lib_serde.rs b/src/method_lib/lib_serde.rs
index b261e1d..95113a0 100644
--- a/src/method_lib/lib_serde.rs
+++ b/src/method_lib/lib_serde.rs
@@ -1,6 +1,6 @@
 #![cfg(feature = "method_lib_serde")]
 
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use itertools::Itertools;
 use serde_crate::{Deserialize, Serialize};
@@ -78,18 +78,21 @@ impl From<&MethodLib> for MethodLibSerde {
     }
 }
 
-impl From<MethodLibSerde> for MethodLib {
-    fn from(m: MethodLibSerde) -> MethodLib {
+impl TryFrom<MethodLibSerde> for MethodLib {
+    type Error = String;
+
+    fn try_from(m: MethodLibSerde) -> Result<MethodLib, String> {
         let mut unpacked_method_map: LibraryMap = HashMap::with_capacity(25);
 
         for group in m.groups {
             // Unpack values from the group
-            let stage = Stage::new(group.stage);
+            let stage = Stage::try_from(group.stage).map_err(|e| e.to_string())?;
             let full_class = FullClass::new(
                 group.is_jump,
                 group.is_little,
                 group.is_differential,
-                from_class_id(group.class_id).expect("Unexpected type ID found"),
+                from_class_id(group.class_id)
+                    .ok_or_else(|| format!("Invalid Class ID {}", group.class_id))?,
             );
 
             // Get the group of methods that correspond to this group's stage
@@ -120,9 +123,9 @@ impl From<MethodLibSerde> for MethodLib {
             }
         }
 
-        MethodLib {
+        Ok(MethodLib {
             method_map: unpacked_method_map,
-        }
+        })
     }
 }
 
@@ -199,6 +202,6 @@ fn from_class_id(v: u8) -> Option<Class> {
         7 => Class::Alliance,
         8 => Class::Hybrid,
 
-        _ => panic!("Invalid Class ID {}", v),
+        _ => return None,
     })
 }
diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 94bbce9..60a98bd 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -166,7 +166,10 @@ impl MethodLib {
     /// Serialize this `MethodLib` from the compact JSON format generated by
     /// [`MethodLib::to_json`].
     pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
-        serde_json::from_str::<lib_serde::MethodLibSerde>(json).map(Self::from)
+        use std::convert::TryFrom;
+
+        serde_json::from_str::<lib_serde::MethodLibSerde>(json)
+            .and_then(|lib| Self::try_from(lib).map_err(serde_crate::de::Error::custom))
     }
 }
 
-- 
2.43.0


From ac0e19ccf7fd887c6c16726a279d8f6acd8ae608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 14/18] fix: MethodLib::get_by_title_with_suggestions panicked
 when no suggestions were requested

---
 src/method_lib/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 60a98bd..55f691a 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -121,6 +121,11 @@ impl MethodLib {
 
         impl<'s> Eq for Suggestion<'s> {}
 
+        // `Shortlist`s can't be created with no capacity
+        if num_suggestions == 0 {
+            return Vec::new();
+        }
+
         // Test each method as a suggestion, pushing the suggestions into a shortlist
         let mut suggestion_shortlist = Shortlist::new(num_suggestions);
         for methods in self.method_map.values() {
-- 
2.43.0


From edba9d5805c6607d3fa6d195edd8247345f7fa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 15/18] fix: SameStageVec row indices whose bell indices
 overflow returned the wrong rows

---
 src/row/same_stage_vec.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 4ed64ab..4c99b4a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -173,7 +173,7 @@ impl SameStageVec {
 
     /// Gets a reference to the [`Row`] at a given `index`, or `None` if `index >= self.len()`.
     pub fn get(&self, index: usize) -> Option<&Row> {
-        let bell_slice = self.bells.get(self.get_range_of_row(index))?;
+        let bell_slice = self.bells.get(self.get_range_of_row(index)?)?;
         // This unsafety is OK, because we uphold an invariant that each stage-aligned segment of
         // `self.bells` is a valid `Row`
         Some(unsafe { Row::from_slice_unchecked(bell_slice) })
@@ -182,7 +182,7 @@ impl SameStageVec {
     /// Gets a mutable reference to the [`Row`] at a given `index`, or `None` if
     /// `index >= self.len()`.
     pub fn get_mut(&mut self, index: usize) -> Option<&mut Row> {
-        let range = self.get_range_of_row(index);
+        let range = self.get_range_of_row(index)?;
         let bell_slice = self.bells.get_mut(range)?;
         // This unsafety is OK, because we uphold an invariant that each stage-aligned segment of
         // `self.bells` is a valid `Row`
@@ -364,8 +364,8 @@ impl SameStageVec {
     /// - `a.len() == index`, and
     /// - `self == a.extend_from_buf(&b)` (i.e. no rows are created or destroyed)
     pub fn split(self, index: usize) -> Option<(Self, Self)> {
-        let (left_bells, right_bells) =
-            utils::split_vec(self.bells, index * self.stage.num_bells())?;
+        let bell_index = index.checked_mul(self.stage.num_bells())?;
+        let (left_bells, right_bells) = utils::split_vec(self.bells, bell_index)?;
         Some((
             // Both of these are safe because we split `self.bells` at an integer multiple of
             // `self.stage`, thus preserving the row boundaries and upholding the invariants
@@ -388,10 +388,12 @@ impl SameStageVec {
         bell_range
     }
 
-    /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`.
-    fn get_range_of_row(&self, index: usize) -> Range<usize> {
+    /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`, or
+    /// `None` if that range is too big to be represented.
+    fn get_range_of_row(&self, index: usize) -> Option<Range<usize>> {
         let s = self.stage.num_bells();
-        index * s..(index + 1) * s
+        let start = index.checked_mul(s)?;
+        Some(start..start.checked_add(s)?)
     }
 }
 
@@ -399,9 +401,7 @@ impl Index<usize> for SameStageVec {
     type Output = Row;
 
     fn index(&self, index: usize) -> &Self::Output {
-        // This unsafety is fine, because we require that every stage-aligned chunk of bells forms
-        // a valid row according to the Framework
-        unsafe { Row::from_slice_unchecked(&self.bells[self.get_range_of_row(index)]) }
+        self.get(index).expect("Row index out of range")
     }
 }
 
-- 
2.43.0


From d14bf56b8099deb065e0efafb87632b0c9d192b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:06 +0000
Subject: [PATCH 16/18] fix: same_stage_vec::Iter claimed to be an
 ExactSizeIterator without an exact size hint

---
 src/row/same_stage_vec.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 4c99b4a..175a443 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -452,6 +452,10 @@ impl<'v> Iterator for Iter<'v> {
         Some(unsafe { Row::from_slice_unchecked(next_row) })
     }
 
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        (self.len(), Some(self.len()))
+    }
+
     // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
     // `next()` is unnecessarily slow.
 }
-- 
2.43.0


From 9fe4015950bfd7e268ea397daab97877222c709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 17/18] fix: MethodLib::get_by_title_with_suggestions panicked
 when asked for a huge number of suggestions

---
 src/method_lib/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 55f691a..a662a3f 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -121,6 +121,10 @@ impl MethodLib {
 
         impl<'s> Eq for Suggestion<'s> {}
 
+        // There can't be more suggestions than there are methods, and allocating space for them could
+        // fail
+        let num_methods = self.method_map.values().map(HashMap::len).sum();
+        let num_suggestions = num_suggestions.min(num_methods);
         // `Shortlist`s can't be created with no capacity
         if num_suggestions == 0 {
             return Vec::new();
-- 
2.43.0


From 58261470fdbb71d9aa8bcb3f91f158a936b16171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:06 +0000
Subject: [PATCH 18/18] fix: the importer of the Central Council's XML (feature
 cc_lib_gen) did not compile

---
 src/method_lib/parse_cc_lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/method_lib/parse_cc_lib.rs b/src/method_lib/parse_cc_lib.rs
index 01ade15..7e9729e 100644
--- a/src/method_lib/parse_cc_lib.rs
+++ b/src/method_lib/parse_cc_lib.rs
@@ -3,7 +3,7 @@
 
 #![cfg(feature = "cc_lib_gen")]
 
-use crate::method::Class;
+use crate::method::class::Class;
 
 use super::*;
 use minidom::Element;
@@ -80,9 +80,10 @@ fn read_methods(root: &Element) -> LibraryMap {
 
             // Push the newly parsed method onto the map corresponding to the correct stage
             method_map.insert(
-                title,
+                title.to_lowercase(),
                 CompactMethod {
                     name,
+                    title,
                     full_class,
                     place_notation,
                 },
@@ -95,13 +96,13 @@ fn read_methods(root: &Element) -> LibraryMap {
 
 /// Read the `<properties>` element
 fn read_properties(properties: &Element) -> (Stage, FullClass) {
-    let stage: Stage = properties
+    let num_bells = properties
         .get_child("stage", NAMESPACE)
         .expect("Couldn't find `stage` element")
         .text()
         .parse::<usize>()
-        .expect("Stage wasn't a valid number")
-        .into();
+        .expect("Stage wasn't a valid number");
+    let stage = Stage::new(num_bells);
 
     let classification_elem = properties
         .get_child("classification", NAMESPACE)
-- 
2.43.0

