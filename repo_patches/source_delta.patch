From dcb00b361f0e319418e3cc3e6aa10fa2cd28c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 01/28] fix: make Mask::as_row never build invalid rows

Masks made by Mask::parse or set_bell can contain duplicate or out-of-stage
bells, so from_bell_iter_unchecked built invalid Rows in safe code (undefined
behaviour later in SameStageVec::pre_multiply).  A mask with exactly one
unspecified place matches exactly one Row, which is now returned as documented.
---
 src/mask.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/mask.rs b/src/mask.rs
index 5203a18..16c95a5 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -163,13 +163,20 @@ impl Mask {
 
     /// If this mask matches exactly one [`Row`], then return that [`Row`] (otherwise `None`).
     pub fn as_row(&self) -> Option<RowBuf> {
-        if self.bells.iter().all(Option::is_some) {
-            // This unsafety is OK because we assert an invariant that masks are subsets of rows
-            // (and thus a complete mask satisfies all the invariants of rows).
-            Some(unsafe { RowBuf::from_bell_iter_unchecked(self.bells.iter().map(|b| b.unwrap())) })
-        } else {
-            None
-        }
+        // If exactly one place is unspecified, then it can only contain the one bell which isn't
+        // fixed elsewhere
+        let missing_bell = match self.unspecified_places().count() {
+            0 => None,
+            1 => Some(
+                self.stage()
+                    .bells()
+                    .find(|&b| self.place_of(b).is_none())?,
+            ),
+            _ => return None, // More than one row matches
+        };
+        // The validity of the new row has to be checked, because `Mask`s can be created (e.g. by
+        // `Mask::parse`) which contain duplicate or out-of-stage bells and thus match no `Row`s
+        RowBuf::from_bell_iter(self.bells.iter().filter_map(|b| b.or(missing_bell))).ok()
     }
 
     /// Returns `true` if the set of [`Row`]s satisfying `self` is a subset of those satisfying
-- 
2.43.0


From 6a063078fc5d5f49273ed5ef8c2acef9856ae88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 02/28] fix: AnnotBlock::extend_range copies only the
 annotations in the range

The annotations of the whole of `other` were appended whatever the range, so
the number of annotations no longer matched the number of rows.
---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cd0ef2c..e49fade 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -332,7 +332,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots.iter().cloned());
+        self.annots.extend(other.annots[range].iter().cloned());
 
         Ok(())
     }
-- 
2.43.0


From d91ee47778298259a44b3a17c8fb2c487d989f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:49 +0000
Subject: [PATCH 03/28] fix: check the stage of `other` in
 SameStageVec::extend_range_transposed

Extending from a SameStageVec of a different stage created invalid rows in
safe code.
---
 src/row/same_stage_vec.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 696b116..c89d40a 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -303,6 +303,7 @@ impl SameStageVec {
         range: impl RangeBounds<usize>,
     ) -> Result<(), IncompatibleStages> {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
+        IncompatibleStages::test_err(self.stage, other.stage)?;
         // TODO: Write a vectorised routine for this
         self.bells.extend(
             other.bells[other.to_bell_range(range)]
-- 
2.43.0


From 758a1ba6efbb25017898e7af6d5388b729c44659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:53 +0000
Subject: [PATCH 04/28] fix: bounds check
 SameStageVec::extend_transposed_from_within

A range past the end of the vec silently read the rows being appended.
---
 src/row/same_stage_vec.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index c89d40a..0c4da56 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -323,7 +323,11 @@ impl SameStageVec {
         IncompatibleStages::test_err(self.stage, transposition.stage())?;
         // Copy the bells one-by-one, because otherwise we'd have to borrow `self.bells` twice and
         // the borrow checker doesn't like that.
-        for i in self.to_bell_range(range) {
+        let bell_range = self.to_bell_range(range);
+        // The new bells are read from `self` as it's being extended, so indexing alone wouldn't
+        // detect a range which is out of bounds
+        assert!(bell_range.end <= self.bells.len(), "range out of bounds");
+        for i in bell_range {
             let transposed_bell = transposition[self.bells[i].index()];
             self.bells.push(transposed_bell);
         }
-- 
2.43.0


From b7acb2211764c70752e561c34c44f1c8a0f50709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:33 +0000
Subject: [PATCH 05/28] fix: return an error from SameStageVec::parse("")
 instead of panicking

---
 src/row/same_stage_vec.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 0c4da56..a2baaee 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -103,7 +103,7 @@ impl SameStageVec {
 
         // Parse the first line before creating the `SameStageVec` (since we need to know upfront
         // what the stage is going to be).
-        let (_one, first_line) = line_iter.next().unwrap(); // strings always contain at least one line
+        let (_one, first_line) = line_iter.next().unwrap_or((1, "")); // `"".lines()` yields nothing
         let first_row =
             RowBuf::parse(first_line).map_err(|err| ParseError::InvalidRow { line_num: 1, err })?;
         // Create a `SameStageVec`, which starts out containing the first row
-- 
2.43.0


From 15b8fb0178194b599b6b8ac3a520aec2deaca599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:37 +0000
Subject: [PATCH 06/28] fix: don't overflow when indexing SameStageVec with
 huge indices

In release builds the index wrapped round, so e.g. get(1 << 61) on 8 bells
returned the first row instead of None (and split(1 << 61) split at 0).
---
 src/row/same_stage_vec.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index a2baaee..dd18166 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -368,7 +368,7 @@ impl SameStageVec {
     /// - `self == a.extend_from_buf(&b)` (i.e. no rows are created or destroyed)
     pub fn split(self, index: usize) -> Option<(Self, Self)> {
         let (left_bells, right_bells) =
-            utils::split_vec(self.bells, index * self.stage.num_bells())?;
+            utils::split_vec(self.bells, index.saturating_mul(self.stage.num_bells()))?;
         Some((
             // Both of these are safe because we split `self.bells` at an integer multiple of
             // `self.stage`, thus preserving the row boundaries and upholding the invariants
@@ -386,15 +386,17 @@ impl SameStageVec {
     #[allow(clippy::let_and_return)]
     fn to_bell_range(&self, range: impl RangeBounds<usize>) -> Range<usize> {
         let row_range = utils::clamp_range(range, self.len());
-        let bell_range =
-            row_range.start * self.stage.num_bells()..row_range.end * self.stage.num_bells();
+        // If either bound would overflow, then saturating leaves it out of bounds
+        let bell_range = row_range.start.saturating_mul(self.stage.num_bells())
+            ..row_range.end.saturating_mul(self.stage.num_bells());
         bell_range
     }
 
     /// Gets the [`Range`] of `self.bells` which would contain the [`Row`] at a given `index`.
     fn get_range_of_row(&self, index: usize) -> Range<usize> {
         let s = self.stage.num_bells();
-        index * s..(index + 1) * s
+        // If either bound would overflow, then saturating leaves it out of bounds
+        index.saturating_mul(s)..index.saturating_add(1).saturating_mul(s)
     }
 }
 
-- 
2.43.0


From e7b702b46655a3da0ef66a0384539bfdfa39bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 07/28] fix: make size_hint of same_stage_vec::Iter exact

ExactSizeIterator requires size_hint to return the exact length, but the
default of (0, None) was used.
---
 src/row/same_stage_vec.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index dd18166..838c310 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -457,6 +457,13 @@ impl<'v> Iterator for Iter<'v> {
         Some(unsafe { Row::from_slice_unchecked(next_row) })
     }
 
+    // `ExactSizeIterator` requires that this is exact
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.bells_left.len() / self.stage.num_bells();
+        (len, Some(len))
+    }
+
     // PERF: Implement better routines for methods such as `nth`, etc. for which repeatedly calling
     // `next()` is unnecessarily slow.
 }
-- 
2.43.0


From 39dcf8728166979857e3bb75a7c3ef42994a063a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:31 +0000
Subject: [PATCH 08/28] fix: correct the byte positions in PnBlock parse errors

The offset of the symmetric block was added twice, and the range of an invalid
place notation included the delimiter after it (so could end past the end of
the string).
---
 src/place_not.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/place_not.rs b/src/place_not.rs
index 6532142..b1764b5 100644
--- a/src/place_not.rs
+++ b/src/place_not.rs
@@ -515,8 +515,8 @@ impl PnBlock {
         // Tracks the index of the first byte in the chunk of PN currently being read.  This is
         // used so that we can return a byte range in the case of an error
         let mut current_pn_start_index = 0;
-        for (i, m) in tok_indices {
-            let index = i + byte_offset;
+        // `tok_indices` already includes `byte_offset`
+        for (index, m) in tok_indices {
             match m {
                 // If the char is a bell name, then add it to the places
                 CharMeaning::Bell(b) => {
@@ -537,7 +537,7 @@ impl PnBlock {
                         // This unsafety is OK, because we have just sorted the slice
                         let new_pn = unsafe {
                             PlaceNot::from_sorted_slice(&places, stage).map_err(|e| {
-                                PnBlockParseError::PnError(current_pn_start_index..index + 1, e)
+                                PnBlockParseError::PnError(current_pn_start_index..index, e)
                             })
                         }?;
                         places.clear();
-- 
2.43.0


From f1b2f84dd51b2728cb986dcb0845384c1a2facef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 09/28] fix: correct the count given by
 Regex::num_matching_rows

The bells filling the 'x's were counted in only one order, the ways to fill
the '*'s were computed from the number of 'x's, stage mismatches were counted
as matches, and unmatchable regexes or overflow could panic.
---
 src/music.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 65710c4..7fb0b67 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -291,9 +291,10 @@ impl Regex {
         // assign a bell to each of the 'x's, then (for each of these assignments) partition the
         // remaining bells between the '*'s.
         //
-        // The number of assignments of `n` bells into `i` 'x's is simply `n choose i`.  Now we're
-        // left with the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as
-        // simple, but nonetheless there is a nice way to re-frame the problem: instead of
+        // The number of assignments of `n` bells into `i` 'x's is simply `n choose i` (for choosing
+        // which bells are used) times `i!` (for the orders of those bells).  Now we're left with
+        // the remaining `n - i` bells to distribute into `j` '*'s.  This step is not as simple, but
+        // nonetheless there is a nice way to re-frame the problem: instead of
         // distributing the bells into `j` '*'s, we choose to split the bells up by inserting
         // `j - 1` identical barriers.
         //
@@ -310,6 +311,13 @@ impl Regex {
         //
         // Multiplying both of these terms will give the total number of matching `Row`s
 
+        // If the regex requires a bell which is out of the stage or requires a bell to be in two
+        // places at once, then it can't match any `Row`
+        let mut fixed_bells = self.elems.iter().filter_map(|e| e.bell());
+        if !fixed_bells.clone().all_unique() || fixed_bells.any(|b| b > stage.tenor()) {
+            return Some(0);
+        }
+
         // Compute the values of `n` (num_unfixed), `i` (num_wildcards) and `j` (num_globs) by
         // iterating over the regex and counting.
         let mut num_unfixed = stage.num_bells(); // `n`, decremented for each fixed bell
@@ -323,16 +331,23 @@ impl Regex {
             }
         }
 
-        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?;
+        // There must be enough unfixed bells to fill the 'x's, and if there are no '*'s then there
+        // is nowhere for any remaining bells to go
+        if num_wildcards > num_unfixed || (num_globs == 0 && num_wildcards < num_unfixed) {
+            return Some(0);
+        }
+
+        let ways_to_fill_wildcards = utils::choice(num_unfixed, num_wildcards)?
+            .checked_mul(num_wildcards.checked_factorial()?)?;
 
         // TODO: Compute the fraction directly to limit potential for overflow
         let num_bells_in_globs = num_unfixed - num_wildcards;
         let ways_to_fill_globs_numerator =
-            (num_bells_in_globs + num_wildcards.saturating_sub(1)).checked_factorial()?;
+            (num_bells_in_globs + num_globs.saturating_sub(1)).checked_factorial()?;
         let ways_to_fill_globs_denominator = num_globs.saturating_sub(1).checked_factorial()?;
         let ways_to_fill_globs = ways_to_fill_globs_numerator / ways_to_fill_globs_denominator;
 
-        Some(ways_to_fill_wildcards * ways_to_fill_globs)
+        ways_to_fill_wildcards.checked_mul(ways_to_fill_globs)
     }
 
     /// Returns `true` if a given [`Row`] satisfies this `Regex`, and `false` otherwise.  If the
-- 
2.43.0


From 5dcd3c15380840576c6f976d1a92af44193bec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 10/28] fix: normalise the regexes returned by Regex::all_runs

With a run length of 0 they were `**`, and matching them panicked.
---
 src/music.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/music.rs b/src/music.rs
index 7fb0b67..d75d4ae 100644
--- a/src/music.rs
+++ b/src/music.rs
@@ -226,24 +226,21 @@ impl Regex {
             // An iterator that yields the bells forming this run in ascending order
             let run_iterator = (i..i + len).map(Bell::from_index).map(RegexElem::Bell);
 
-            // This unsafety is OK because all of the input patterns must be normalised because
-            // they contain only one wildcard
-            let descending_regex = unsafe {
+            // These have to be normalised, because if `len` is 0 then the globs are consecutive
+            let descending_regex =
                 // Descending runs (e.g. `*1234*`)
-                Self::from_elems_unchecked(
+                Self::from_elems(
                     once(RegexElem::Glob)
                         .chain(run_iterator.clone())
                         .chain(once(RegexElem::Glob)),
-                )
-            };
-            let ascending_regex = unsafe {
+                );
+            let ascending_regex =
                 // Ascending runs (e.g. `*4321*`)
-                Self::from_elems_unchecked(
+                Self::from_elems(
                     once(RegexElem::Glob)
                         .chain(run_iterator.clone().rev())
                         .chain(once(RegexElem::Glob)),
-                )
-            };
+                );
 
             runs.push(descending_regex);
             runs.push(ascending_regex);
-- 
2.43.0


From c525dadae4449875471dd29dd4adaffd996491b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 11/28] fix: handle single unspecified places in
 Mask::is_subset_of

`12x` is satisfied only by 123, so is a subset of `123`.
---
 src/mask.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mask.rs b/src/mask.rs
index 16c95a5..2d6ca01 100644
--- a/src/mask.rs
+++ b/src/mask.rs
@@ -187,6 +187,12 @@ impl Mask {
             return false;
         }
 
+        // If `self` is only satisfied by one row (which could be the case even if one place is
+        // unspecified), then it's a subset precisely when `other` matches that row
+        if let Some(row) = self.as_row() {
+            return other.matches(&row);
+        }
+
         // Now check that every bell required by `other` is also required by `self`
         for (b1, b2) in self.bells.iter().zip_eq(&other.bells) {
             match (*b1, *b2) {
-- 
2.43.0


From c4c22f98cf012afd5303ef4d1403e8983b3ffe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 12/28] fix: serialise Bells as their number

Bells are deserialised from their (1-indexed) number but were serialised as
their index, so every bell changed in a round trip (and the treble failed).
---
 src/bell.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bell.rs b/src/bell.rs
index 5070f21..1c448d8 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -400,6 +400,6 @@ impl Serialize for Bell {
     where
         S: Serializer,
     {
-        serializer.serialize_u64(self.index as u64)
+        serializer.serialize_u64(self.number() as u64)
     }
 }
-- 
2.43.0


From 010e0438a4792ef56280d45a66aee605829c9664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:41 +0000
Subject: [PATCH 13/28] fix: return an error when deserialising a Stage of zero
 bells

Stage::new panics on zero, so untrusted data could crash the deserialiser.
---
 src/stage.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stage.rs b/src/stage.rs
index cadc537..4ef5c1e 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -383,7 +383,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i16<E>(self, v: i16) -> Result<Self::Value, E>
@@ -397,7 +397,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i32<E>(self, v: i32) -> Result<Self::Value, E>
@@ -411,7 +411,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     fn visit_i64<E>(self, v: i64) -> Result<Self::Value, E>
@@ -425,7 +425,7 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Ok(Stage::new(v as usize))
+        Stage::try_from(v as usize).map_err(E::custom)
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -445,7 +445,7 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
     if val >= 0 {
-        Ok(Stage::new(val as usize))
+        Stage::try_from(val as usize).map_err(E::custom)
     } else {
         Err(E::custom(format!("negative Stage: {}", val)))
     }
-- 
2.43.0


From d932d2e1a8f773d5a75479cd2517aff2c8d5f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:29 +0000
Subject: [PATCH 14/28] fix: return errors for invalid libraries in
 MethodLib::from_json

An unknown class ID or a stage of zero panicked instead of returning an error.
---
 src/method_lib/lib_serde.rs | 19 +++++++++++--------
 src/method_lib/mod.rs       |  6 +++++-
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/method_lib/lib_serde.rs b/src/method_lib/lib_serde.rs
index b261e1d..95113a0 100644
--- a/src/method_lib/lib_serde.rs
+++ b/src/method_lib/lib_serde.rs
@@ -1,6 +1,6 @@
 #![cfg(feature = "method_lib_serde")]
 
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use itertools::Itertools;
 use serde_crate::{Deserialize, Serialize};
@@ -78,18 +78,21 @@ impl From<&MethodLib> for MethodLibSerde {
     }
 }
 
-impl From<MethodLibSerde> for MethodLib {
-    fn from(m: MethodLibSerde) -> MethodLib {
+impl TryFrom<MethodLibSerde> for MethodLib {
+    type Error = String;
+
+    fn try_from(m: MethodLibSerde) -> Result<MethodLib, String> {
         let mut unpacked_method_map: LibraryMap = HashMap::with_capacity(25);
 
         for group in m.groups {
             // Unpack values from the group
-            let stage = Stage::new(group.stage);
+            let stage = Stage::try_from(group.stage).map_err(|e| e.to_string())?;
             let full_class = FullClass::new(
                 group.is_jump,
                 group.is_little,
                 group.is_differential,
-                from_class_id(group.class_id).expect("Unexpected type ID found"),
+                from_class_id(group.class_id)
+                    .ok_or_else(|| format!("Invalid Class ID {}", group.class_id))?,
             );
 
             // Get the group of methods that correspond to this group's stage
@@ -120,9 +123,9 @@ impl From<MethodLibSerde> for MethodLib {
             }
         }
 
-        MethodLib {
+        Ok(MethodLib {
             method_map: unpacked_method_map,
-        }
+        })
     }
 }
 
@@ -199,6 +202,6 @@ fn from_class_id(v: u8) -> Option<Class> {
         7 => Class::Alliance,
         8 => Class::Hybrid,
 
-        _ => panic!("Invalid Class ID {}", v),
+        _ => return None,
     })
 }
diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index 94bbce9..e1d068a 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -166,7 +166,11 @@ impl MethodLib {
     /// Serialize this `MethodLib` from the compact JSON format generated by
     /// [`MethodLib::to_json`].
     pub fn from_json(json: &str) -> Result<Self, serde_json::Error> {
-        serde_json::from_str::<lib_serde::MethodLibSerde>(json).map(Self::from)
+        use serde_crate::de::Error;
+        use std::convert::TryFrom;
+
+        serde_json::from_str::<lib_serde::MethodLibSerde>(json)
+            .and_then(|lib| Self::try_from(lib).map_err(serde_json::Error::custom))
     }
 }
 
-- 
2.43.0


From c38c557a0d6bd2557a35c8576726be19872b5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:34 +0000
Subject: [PATCH 15/28] fix: don't panic when generating titles for Stages
 without names

Method::with_name, MethodLib::from_json and MethodLib::to_json all generate
titles, so panicked for any method on more than 22 bells.
---
 src/method/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/method/mod.rs b/src/method/mod.rs
index e0a5fc8..6d47547 100644
--- a/src/method/mod.rs
+++ b/src/method/mod.rs
@@ -216,7 +216,7 @@ pub fn generate_title(name: &str, class: FullClass, stage: Stage) -> String {
         s.push(' ');
     }
     // Always push the stage
-    s.push_str(stage.name().expect("Stage was too big to generate a name"));
+    s.push_str(&stage.to_string()); // Stages which are too big to have a name are still displayed
 
     s
 }
-- 
2.43.0


From bd405ad7170ddb0c13a38be7b11928c7665c28d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 16/28] fix: allow any number of suggestions from MethodLib

Asking for 0 suggestions (or usize::MAX, to get all of them) panicked.
---
 src/method_lib/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index e1d068a..f4307f1 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -122,7 +122,12 @@ impl MethodLib {
         impl<'s> Eq for Suggestion<'s> {}
 
         // Test each method as a suggestion, pushing the suggestions into a shortlist
-        let mut suggestion_shortlist = Shortlist::new(num_suggestions);
+        let num_methods = self.method_map.values().map(HashMap::len).sum();
+        let capacity = num_suggestions.min(num_methods);
+        if capacity == 0 {
+            return Vec::new(); // `Shortlist`s can't have zero capacity
+        }
+        let mut suggestion_shortlist = Shortlist::new(capacity);
         for methods in self.method_map.values() {
             suggestion_shortlist.append(methods.iter().map(|(stored_title, method)| {
                 Suggestion::new(lower_case_title, stored_title, &method.title)
-- 
2.43.0


From 6564fc894d762459686e912fea675ce7a984ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:02 +0000
Subject: [PATCH 17/28] fix: don't panic on overflow in Row::fast_hash

It overflowed (so panicked in debug builds) for every row on 16 or more bells,
although it's documented to be perfect on 16 bells.
---
 src/row/borrowed.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 7c2f89a..a6b8659 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -802,11 +802,11 @@ impl Row {
     /// if they are in fact the same.  This is ludicrously inefficient in terms of hash density,
     /// but it is fast and perfect and in most cases will suffice.
     pub fn fast_hash(&self) -> usize {
-        let mut accum = 0;
-        let mut multiplier = 1;
+        let mut accum = 0usize;
+        let mut multiplier = 1usize;
         for b in self.bell_iter() {
-            accum += b.index() * multiplier;
-            multiplier *= self.stage().num_bells();
+            accum = accum.wrapping_add(b.index().wrapping_mul(multiplier));
+            multiplier = multiplier.wrapping_mul(self.stage().num_bells());
         }
         accum
     }
-- 
2.43.0


From e4a12fd0b02e789497a865d2c62794566f9a36fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:33 +0000
Subject: [PATCH 18/28] fix: make the cc_lib_gen feature compile again

parse_cc_lib wasn't updated for changes to Class, CompactMethod and Stage.
The library is keyed by lower case titles, so look-ups need them here too.
---
 src/method_lib/parse_cc_lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/method_lib/parse_cc_lib.rs b/src/method_lib/parse_cc_lib.rs
index 01ade15..7e9729e 100644
--- a/src/method_lib/parse_cc_lib.rs
+++ b/src/method_lib/parse_cc_lib.rs
@@ -3,7 +3,7 @@
 
 #![cfg(feature = "cc_lib_gen")]
 
-use crate::method::Class;
+use crate::method::class::Class;
 
 use super::*;
 use minidom::Element;
@@ -80,9 +80,10 @@ fn read_methods(root: &Element) -> LibraryMap {
 
             // Push the newly parsed method onto the map corresponding to the correct stage
             method_map.insert(
-                title,
+                title.to_lowercase(),
                 CompactMethod {
                     name,
+                    title,
                     full_class,
                     place_notation,
                 },
@@ -95,13 +96,13 @@ fn read_methods(root: &Element) -> LibraryMap {
 
 /// Read the `<properties>` element
 fn read_properties(properties: &Element) -> (Stage, FullClass) {
-    let stage: Stage = properties
+    let num_bells = properties
         .get_child("stage", NAMESPACE)
         .expect("Couldn't find `stage` element")
         .text()
         .parse::<usize>()
-        .expect("Stage wasn't a valid number")
-        .into();
+        .expect("Stage wasn't a valid number");
+    let stage = Stage::new(num_bells);
 
     let classification_elem = properties
         .get_child("classification", NAMESPACE)
-- 
2.43.0


From 41e85dd17838aa0aa96acc9be06aa5ac23660983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 19/28] fix: range bounds of usize::MAX wrapped around, so bad
 ranges were taken for good ones

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7c08383..bfbf967 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -22,11 +22,11 @@ pub fn run_len(iter: impl IntoIterator<Item = Bell>) -> usize {
 pub fn clamp_range(range: impl RangeBounds<usize>, length: usize) -> Range<usize> {
     let range_min_inclusive = match range.start_bound() {
         Bound::Included(v) => *v,
-        Bound::Excluded(v) => *v + 1,
+        Bound::Excluded(v) => v.saturating_add(1),
         Bound::Unbounded => 0,
     };
     let range_max_exclusive = match range.end_bound() {
-        Bound::Included(v) => *v + 1,
+        Bound::Included(v) => v.saturating_add(1),
         Bound::Excluded(v) => *v,
         Bound::Unbounded => length,
     };
-- 
2.43.0


From 8247286f4843c6d2ece33ad00a45745070a91159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 20/28] fix: SameStageVec::extend_transposed_from_within
 ignored backwards ranges rather than panicking

---
 src/row/same_stage_vec.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/row/same_stage_vec.rs b/src/row/same_stage_vec.rs
index 838c310..3bd3226 100644
--- a/src/row/same_stage_vec.rs
+++ b/src/row/same_stage_vec.rs
@@ -325,8 +325,11 @@ impl SameStageVec {
         // the borrow checker doesn't like that.
         let bell_range = self.to_bell_range(range);
         // The new bells are read from `self` as it's being extended, so indexing alone wouldn't
-        // detect a range which is out of bounds
-        assert!(bell_range.end <= self.bells.len(), "range out of bounds");
+        // detect a range which is out of bounds (or, like `3..1`, backwards)
+        assert!(
+            bell_range.start <= bell_range.end && bell_range.end <= self.bells.len(),
+            "range out of bounds"
+        );
         for i in bell_range {
             let transposed_bell = transposition[self.bells[i].index()];
             self.bells.push(transposed_bell);
-- 
2.43.0


From 5235ee7f008a01e02ab94c971b92e60398ab8fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 21/28] fix: AnnotBlock::extend_range lost the leftover row if
 its range was out of bounds

---
 src/block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/block.rs b/src/block.rs
index e49fade..55ae70d 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -323,6 +323,11 @@ impl<A> AnnotBlock<A> {
         // `transposition` pre-multiplies `other`'s first row to `self`'s leftover row
         let transposition =
             Row::solve_xa_equals_b(other.get_row(range.start).unwrap(), self.leftover_row())?;
+        // Panic **before** changing anything, so that `self` remains valid if the panic is caught
+        assert!(
+            range.start <= range.end && range.end <= other.len(),
+            "range out of bounds"
+        );
 
         // Add the transposed rows to `self`
         self.rows.pop(); // If we don't remove the leftover row, then it will get added twice
-- 
2.43.0


From d729657bb9830285bb946f2a4f508383e06f1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 22/28] fix: Row::pow_u took one multiplication per unit of the
 exponent, so huge exponents never finished

---
 src/row/borrowed.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index a6b8659..f0b1321 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -484,11 +484,17 @@ impl Row {
 
     /// Raises `self` to some positive `exponent`
     pub fn pow_u(&self, exponent: usize) -> RowBuf {
-        // TODO/PERF: Implement this using repeated squaring
+        // Use repeated squaring, so that even huge exponents finish
         let mut accumulator = RowAccumulator::rounds(self.stage());
-        for _ in 0..exponent {
-            // Unwrap is safe because the accumulator has the same stage as `self`
-            accumulator.accumulate(self).unwrap();
+        let mut power = self.to_owned(); // `self` to the power of 1, 2, 4, 8, ...
+        let mut exponent_left = exponent;
+        while exponent_left > 0 {
+            if exponent_left % 2 == 1 {
+                // Unwrap is safe because the accumulator has the same stage as `self`
+                accumulator.accumulate(&power).unwrap();
+            }
+            power = &power * &power;
+            exponent_left /= 2;
         }
         accumulator.into_total()
     }
-- 
2.43.0


From 4f6bff42a5d0bc9aee6ff49865e62f2764b9f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 23/28] fix: Row::pow_i(isize::MIN) overflowed

---
 src/row/borrowed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index f0b1321..2d3198e 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -476,7 +476,7 @@ impl Row {
     /// Raises `self` to some (possibly negative) `exponent`
     pub fn pow_i(&self, exponent: isize) -> RowBuf {
         if exponent < 0 {
-            self.inv().pow_u((-exponent) as usize)
+            self.inv().pow_u(exponent.unsigned_abs())
         } else {
             self.pow_u(exponent as usize)
         }
-- 
2.43.0


From 9cad2d39a02ceb02ca5a175389bed132e8f924cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 24/28] fix: downloads of the CC library which aren't UTF-8
 were loaded (and cached) with their bad bytes replaced

---
 src/method_lib/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/method_lib/mod.rs b/src/method_lib/mod.rs
index f4307f1..fa4a4e7 100644
--- a/src/method_lib/mod.rs
+++ b/src/method_lib/mod.rs
@@ -210,12 +210,15 @@ impl MethodLib {
             "https://raw.githubusercontent.com/kneasle/cc-method-lib/master/cccbr-methods.json",
         )
         .ok()?;
-        let json = response.text().ok()?;
-        let lib = Self::from_json(&json).ok()?;
+        // JSON is always UTF-8.  `Response::text` would replace anything else, so corrupt downloads
+        // could make libraries of corrupt titles
+        let body = response.bytes().ok()?;
+        let json = std::str::from_utf8(&body).ok()?;
+        let lib = Self::from_json(json).ok()?;
         // Save the JSON **after** creating the library, so we don't cache an invalid method
         // library
         if let Some(path) = Self::cache_file_path() {
-            let _ = std::fs::write(path, &json);
+            let _ = std::fs::write(path, json);
         }
         Some(lib)
     }
-- 
2.43.0


From ba8a70db528e72484fbf2e217dc7e8e33a08b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 25/28] fix: Row::least_group_containing multiplied unchecked
 rows, if the clones of its iterator yield other rows

---
 src/row/borrowed.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/row/borrowed.rs b/src/row/borrowed.rs
index 2d3198e..c159431 100644
--- a/src/row/borrowed.rs
+++ b/src/row/borrowed.rs
@@ -723,7 +723,10 @@ impl Row {
         // We seed the frontier and `set` manually the first time round to avoid checking the
         // stages all the time (if the input rows are all compatible, then so will any finite
         // product of them).
-        for r in rows.clone().into_iter() {
+        // `rows` is only iterated over once, because nothing forces a clone of an iterator to yield
+        // the same `Row`s (and the unsafe code below relies on the stages checked here).
+        let rows: Vec<&Self> = rows.into_iter().collect();
+        for &r in &rows {
             IncompatibleStages::test_err_opt(&mut stage, r.stage())?;
             if set.insert(r.to_owned()) {
                 frontier.push_back(r.to_owned());
@@ -735,7 +738,7 @@ impl Row {
         // because at each iteration the number of unexpanded nodes in the tree decreases and that
         // number is bounded by the size of the resulting group (which is finite).
         while let Some(r) = frontier.pop_front() {
-            for r2 in rows.clone().into_iter() {
+            for &r2 in &rows {
                 // This unsafety is OK because we checked that all Rows in `rows` have equal stages
                 let new_row = unsafe { r.mul_unchecked(r2) };
                 if !set.contains(&new_row) {
-- 
2.43.0


From ad9d8bf0439c479f2cf3c8a73206996540d24a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 26/28] fix: a panic while cloning annotations left an
 AnnotBlock with more rows than annotations

---
 src/block.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 55ae70d..b143adb 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -329,6 +329,9 @@ impl<A> AnnotBlock<A> {
             "range out of bounds"
         );
 
+        // Clone the annotations **before** adding the rows, because cloning an annotation could panic
+        let new_annots = other.annots[range.clone()].to_vec();
+
         // Add the transposed rows to `self`
         self.rows.pop(); // If we don't remove the leftover row, then it will get added twice
         self.rows
@@ -337,7 +340,7 @@ impl<A> AnnotBlock<A> {
                        // first statement would prevent this code from being executed
 
         // Add the annotations to `self`
-        self.annots.extend(other.annots[range].iter().cloned());
+        self.annots.extend(new_annots);
 
         Ok(())
     }
@@ -357,6 +360,10 @@ impl<A> AnnotBlock<A> {
         let transposition =
             Row::solve_xa_equals_b(first_row_of_chunk, self.leftover_row()).unwrap();
 
+        // Clone the annotations **before** adding the rows, because cloning an annotation could panic
+        // (as does `range` being out of bounds)
+        let new_annots = self.annots[range.clone()].to_vec();
+
         // Extend the rows
         self.rows
             // The range is offset by 1 to exclude the current `leftover_row` of `self`, but
@@ -364,7 +371,7 @@ impl<A> AnnotBlock<A> {
             .extend_transposed_from_within(range.start + 1..range.end + 1, &transposition)
             .unwrap(); // Stages must match because `transposition` comes from `self.row_buffer`
                        // Extend the annots
-        self.annots.extend_from_within(range);
+        self.annots.extend(new_annots);
     }
 
     ///////////////////////////////////
-- 
2.43.0


From 85971fce4994ad1cf819c065eae90478d602fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 27/28] fix: Refuse numbers of bells and stages which are too
 big for this machine

On machines whose usize has less than 64 bits, deserialising numbers beyond
usize gave the bell or stage of their lowest bits, and a Bell from an i64 whose
lowest 32 bits are 0 panicked.
---
 src/bell.rs  | 18 +++++++++++-------
 src/stage.rs |  8 ++++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/bell.rs b/src/bell.rs
index 1c448d8..f05258b 100644
--- a/src/bell.rs
+++ b/src/bell.rs
@@ -1,5 +1,7 @@
 //! A type-safe representation of a bell.
 
+#[cfg(feature = "serde")]
+use std::convert::TryFrom;
 use std::fmt::{Debug, Display, Formatter};
 
 #[cfg(feature = "serde")]
@@ -346,7 +348,10 @@ impl<'de> Visitor<'de> for BellVisitor {
     where
         E: Error,
     {
-        Bell::from_number(v as usize).ok_or(E::custom("can't have Bell #0"))
+        usize::try_from(v)
+            .ok()
+            .and_then(Bell::from_number)
+            .ok_or_else(|| E::custom(format!("invalid Bell number: {}", v)))
     }
 
     fn visit_char<E>(self, v: char) -> Result<Self::Value, E>
@@ -375,12 +380,11 @@ impl<'de> Visitor<'de> for BellVisitor {
 #[cfg(feature = "serde")]
 #[inline(always)]
 fn try_parse_bell<E: Error>(val: i64) -> Result<Bell, E> {
-    if val > 0 {
-        // Unwrapping here is safe, because we checked in the `if` statement that `val` is not 0.
-        Ok(Bell::from_number(val as usize).unwrap())
-    } else {
-        Err(E::custom(format!("invalid Bell number: {}", val)))
-    }
+    // This fails if `val` is negative, or too big for this machine's `usize`
+    usize::try_from(val)
+        .ok()
+        .and_then(Bell::from_number)
+        .ok_or_else(|| E::custom(format!("invalid Bell number: {}", val)))
 }
 
 #[cfg(feature = "serde")]
diff --git a/src/stage.rs b/src/stage.rs
index 4ef5c1e..2ee4b71 100644
--- a/src/stage.rs
+++ b/src/stage.rs
@@ -425,7 +425,9 @@ impl<'de> Visitor<'de> for StageVisitor {
     where
         E: Error,
     {
-        Stage::try_from(v as usize).map_err(E::custom)
+        usize::try_from(v)
+            .map_err(|_| E::custom(format!("Stage too big: {}", v)))
+            .and_then(|v| Stage::try_from(v).map_err(E::custom))
     }
 
     /// Attempt to parse a [`Stage`] from a string.  This matches standard [`Stage`] names on up to
@@ -445,7 +447,9 @@ impl<'de> Visitor<'de> for StageVisitor {
 #[inline(always)]
 fn try_parse_stage<E: Error>(val: i64) -> Result<Stage, E> {
     if val >= 0 {
-        Stage::try_from(val as usize).map_err(E::custom)
+        usize::try_from(val)
+            .map_err(|_| E::custom(format!("Stage too big: {}", val)))
+            .and_then(|v| Stage::try_from(v).map_err(E::custom))
     } else {
         Err(E::custom(format!("negative Stage: {}", val)))
     }
-- 
2.43.0


From cc8d4426318da1136c77106dd40c436f98d61284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 28/28] fix: Don't overflow when finding runs of huge bells

The indices were subtracted as isizes, so run_len panicked in builds with
overflow checks if two neighbouring bells were more than isize::MAX apart (as
signed numbers) - including adjacent bells, i.e. those which do form a run.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index bfbf967..70774c2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -12,7 +12,7 @@ pub fn run_len(iter: impl IntoIterator<Item = Bell>) -> usize {
     iter.into_iter()
         .map(|b| b.index())
         .tuple_windows::<(usize, usize)>()
-        .take_while(|&(i1, i2)| (i1 as isize - i2 as isize).abs() == 1)
+        .take_while(|&(i1, i2)| cmp::max(i1, i2) - cmp::min(i1, i2) == 1)
         .count()
         + 1
 }
-- 
2.43.0

