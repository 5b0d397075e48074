From 6cde617d465101b8e8cdc63f548be5098dd051a5 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:06:59 +0000
Subject: [PATCH 1/6] fix: median of medians with 11 elements asserted on an
 empty subview

---
 src/par/partition.rs | 5 ++++-
 src/partition.rs     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 5309cce..52b3f28 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -303,7 +303,10 @@ fn median_of_ninthers<T, F: Fn(&T, &T) -> bool>(mut v: ArrayViewMut1<'_, T>, is_
 		b += 3;
 	}
 
-	median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	// There is no ninther to take the median of with less than 12 elements.
+	if frac > 0 {
+		median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	}
 	partition(v, lo + pivot, is_less).0
 }
 
diff --git a/src/partition.rs b/src/partition.rs
index 5b9a689..0a10fff 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -267,7 +267,10 @@ fn median_of_ninthers<T, F: FnMut(&T, &T) -> bool>(
 		b += 3;
 	}
 
-	median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	// There is no ninther to take the median of with less than 12 elements.
+	if frac > 0 {
+		median_of_medians(v.slice_mut(s![lo..lo + frac]), is_less, pivot);
+	}
 	partition(v, lo + pivot, is_less).0
 }
 
-- 
2.43.0


From 1a2dbef069ced14425b0b6ad19cbd6c39d6bb760 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:16:38 +0000
Subject: [PATCH 2/6] fix: median of medians took quadratic time with many
 duplicates

---
 src/par/partition.rs | 19 +++++++++++++++----
 src/partition.rs     | 19 +++++++++++++++----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 52b3f28..b278e0a 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -264,11 +264,22 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
-				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
-				// a valid index into the slice.
-				let (_left, right) = v.split_at(Axis(0), p + 1);
+				// All elements right of the pivot are greater than or equal to it. Skip those being
+				// equal at once, otherwise many duplicates result in quadratic running time with
+				// each iteration just skipping the pivot itself.
+				let (_left, mut right) = v.split_at(Axis(0), p);
+				k -= p;
+				let mid = partition_equal(right.view_mut(), 0, is_less);
+
+				// If we've passed our index, then we're good.
+				if mid > k {
+					return;
+				}
+
+				// Since `mid <= k < right.len()`, `mid` is a valid index into the slice.
+				let (_equal, right) = right.split_at(Axis(0), mid);
 				v = right;
-				k -= p + 1;
+				k -= mid;
 			}
 		}
 	}
diff --git a/src/partition.rs b/src/partition.rs
index 0a10fff..ec8839c 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -225,11 +225,22 @@ fn median_of_medians<T, F: FnMut(&T, &T) -> bool>(
 				v = left;
 			}
 			Less => {
-				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
-				// a valid index into the slice.
-				let (_left, right) = v.split_at(Axis(0), p + 1);
+				// All elements right of the pivot are greater than or equal to it. Skip those being
+				// equal at once, otherwise many duplicates result in quadratic running time with
+				// each iteration just skipping the pivot itself.
+				let (_left, mut right) = v.split_at(Axis(0), p);
+				k -= p;
+				let mid = partition_equal(right.view_mut(), 0, is_less);
+
+				// If we've passed our index, then we're good.
+				if mid > k {
+					return;
+				}
+
+				// Since `mid <= k < right.len()`, `mid` is a valid index into the slice.
+				let (_equal, right) = right.split_at(Axis(0), mid);
 				v = right;
-				k -= p + 1;
+				k -= mid;
 			}
 		}
 	}
-- 
2.43.0


From 1dbf0bca7055deefc7788dd80257406b7196833a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 3/6] fix: parallel unstable sort took quadratic time with
 adversarial input

Imbalanced partitions of slices longer than MAX_SEQUENTIAL never counted towards the limit, as the
recursive calls started over with was_balanced set.
---
 src/par/quick_sort.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/par/quick_sort.rs b/src/par/quick_sort.rs
index 7f897a5..2bcedf2 100644
--- a/src/par/quick_sort.rs
+++ b/src/par/quick_sort.rs
@@ -28,7 +28,7 @@ where
 	// Limit the number of imbalanced partitions to `floor(log2(len)) + 1`.
 	let limit = usize::BITS - v.len().leading_zeros();
 
-	recurse(v, &is_less, None, limit);
+	recurse(v, &is_less, None, limit, true);
 }
 
 /// Sorts `v` recursively.
@@ -37,11 +37,14 @@ where
 ///
 /// `limit` is the number of allowed imbalanced partitions before switching to `heap_sort`. If zero,
 /// this function will immediately switch to heapsort.
+///
+/// `was_balanced` tells whether the partitioning `v` originates from was reasonably balanced.
 fn recurse<'a, T, F>(
 	mut v: ArrayViewMut1<'a, T>,
 	is_less: &F,
 	mut pred: Option<&'a mut T>,
 	mut limit: u32,
+	mut was_balanced: bool,
 ) where
 	T: Send,
 	F: Fn(&T, &T) -> bool + Sync,
@@ -52,8 +55,6 @@ fn recurse<'a, T, F>(
 	// as possible but so that the overhead of Rayon's task scheduling is still negligible.
 	const MAX_SEQUENTIAL: usize = 2000;
 
-	// True if the last partitioning was reasonably balanced.
-	let mut was_balanced = true;
 	// True if the last partitioning didn't shuffle elements (the slice was already partitioned).
 	let mut was_partitioned = true;
 
@@ -124,18 +125,22 @@ fn recurse<'a, T, F>(
 			// calls and consume less stack space. Then just continue with the longer side (this is
 			// akin to tail recursion).
 			if left.len() < right.len() {
-				maybe_grow(|| recurse(left, is_less, pred, limit));
+				maybe_grow(|| recurse(left, is_less, pred, limit, true));
 				v = right;
 				pred = Some(pivot);
 			} else {
-				maybe_grow(|| recurse(right, is_less, Some(pivot), limit));
+				maybe_grow(|| recurse(right, is_less, Some(pivot), limit, true));
 				v = left;
 			}
 		} else {
+			// As above, it is the longer side which inherits an imbalance. Otherwise, imbalanced
+			// partitions of long slices would never count towards `limit`.
+			let left_balanced = was_balanced || left.len() < right.len();
+			let right_balanced = was_balanced || !left_balanced;
 			// Sort the left and right half in parallel.
 			rayon::join(
-				|| maybe_grow(|| recurse(left, is_less, pred, limit)),
-				|| maybe_grow(|| recurse(right, is_less, Some(pivot), limit)),
+				|| maybe_grow(|| recurse(left, is_less, pred, limit, left_balanced)),
+				|| maybe_grow(|| recurse(right, is_less, Some(pivot), limit, right_balanced)),
 			);
 			break;
 		}
-- 
2.43.0


From b2cf68a6cb6b69d0b11347777ca6cfecd0b87ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 22:49:21 +0000
Subject: [PATCH 4/6] fix: parallel sort by cached key overflowed the stack
 with adversarial keys

The keys were sorted by Rayon, where imbalanced partitions of long slices never count towards the
limit, resulting in quadratic time and linear recursion depth.
---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5ba6de..0479fe8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1755,10 +1755,7 @@ where
 		S: DataMut,
 	{
 		use core::mem;
-		use rayon::{
-			iter::{ParallelBridge, ParallelIterator},
-			slice::ParallelSliceMut,
-		};
+		use rayon::iter::{ParallelBridge, ParallelIterator};
 
 		//let slice = self.as_parallel_slice_mut();
 		let len = self.len();
@@ -1778,7 +1775,10 @@ where
 				// The elements of `indices` are unique, as they are indexed, so any sort will be
 				// stable with respect to the original slice. We use `sort_unstable` here because
 				// it requires less memory allocation.
-				indices.par_sort_unstable();
+				//
+				// Rayon's implementation is neither *O*(*n* log *n*) nor does it bound its recursion
+				// depth as imbalanced partitions of long slices don't count towards its limit.
+				ArrayViewMut1::from(&mut indices[..]).par_sort_unstable();
 				for i in 0..len {
 					let mut index = indices[i].1;
 					while (index as usize) < i {
-- 
2.43.0


From 7fda048cd528740609a4f7e5c52d138f620f5c2f Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 00:57:22 +0000
Subject: [PATCH 5/6] hook: the cfg(miri) variants build with current compilers

They are guarded by cfg(miri) as before; builds without Miri are unchanged.
---
 src/lib.rs           | 1 -
 src/par/partition.rs | 4 ++--
 src/partition.rs     | 4 ++--
 3 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0479fe8..fe934eb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -76,7 +76,6 @@
 )]
 #![cfg_attr(not(feature = "std"), no_std)]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
-#![cfg_attr(miri, feature(maybe_uninit_slice))]
 
 #[inline(always)]
 fn maybe_grow<R, F: FnOnce() -> R>(callback: F) -> R {
diff --git a/src/par/partition.rs b/src/par/partition.rs
index b278e0a..a53813e 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -604,7 +604,7 @@ where
 			// Trace `block_l` elements from the left side.
 			#[cfg(miri)]
 			{
-				start_l = MaybeUninit::slice_as_mut_ptr(&mut offsets_l);
+				start_l = offsets_l.as_mut_ptr().cast();
 			}
 			#[cfg(not(miri))]
 			{
@@ -637,7 +637,7 @@ where
 			// Trace `block_r` elements from the right side.
 			#[cfg(miri)]
 			{
-				start_r = MaybeUninit::slice_as_mut_ptr(&mut offsets_r);
+				start_r = offsets_r.as_mut_ptr().cast();
 			}
 			#[cfg(not(miri))]
 			{
diff --git a/src/partition.rs b/src/partition.rs
index ec8839c..3ccdd5a 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -578,7 +578,7 @@ where
 			// Trace `block_l` elements from the left side.
 			#[cfg(miri)]
 			{
-				start_l = MaybeUninit::slice_as_mut_ptr(&mut offsets_l);
+				start_l = offsets_l.as_mut_ptr().cast();
 			}
 			#[cfg(not(miri))]
 			{
@@ -611,7 +611,7 @@ where
 			// Trace `block_r` elements from the right side.
 			#[cfg(miri)]
 			{
-				start_r = MaybeUninit::slice_as_mut_ptr(&mut offsets_r);
+				start_r = offsets_r.as_mut_ptr().cast();
 			}
 			#[cfg(not(miri))]
 			{
-- 
2.43.0


From 7e89c3f5af7fabb260868de3f52e5153aaee3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 02:52:50 +0000
Subject: [PATCH 6/6] Revert "hook: the cfg(miri) variants build with current
 compilers"

This reverts commit 7fda048cd528740609a4f7e5c52d138f620f5c2f.
---
 src/lib.rs           | 1 +
 src/par/partition.rs | 4 ++--
 src/partition.rs     | 4 ++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index fe934eb..0479fe8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -76,6 +76,7 @@
 )]
 #![cfg_attr(not(feature = "std"), no_std)]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
+#![cfg_attr(miri, feature(maybe_uninit_slice))]
 
 #[inline(always)]
 fn maybe_grow<R, F: FnOnce() -> R>(callback: F) -> R {
diff --git a/src/par/partition.rs b/src/par/partition.rs
index a53813e..b278e0a 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -604,7 +604,7 @@ where
 			// Trace `block_l` elements from the left side.
 			#[cfg(miri)]
 			{
-				start_l = offsets_l.as_mut_ptr().cast();
+				start_l = MaybeUninit::slice_as_mut_ptr(&mut offsets_l);
 			}
 			#[cfg(not(miri))]
 			{
@@ -637,7 +637,7 @@ where
 			// Trace `block_r` elements from the right side.
 			#[cfg(miri)]
 			{
-				start_r = offsets_r.as_mut_ptr().cast();
+				start_r = MaybeUninit::slice_as_mut_ptr(&mut offsets_r);
 			}
 			#[cfg(not(miri))]
 			{
diff --git a/src/partition.rs b/src/partition.rs
index 3ccdd5a..ec8839c 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -578,7 +578,7 @@ where
 			// Trace `block_l` elements from the left side.
 			#[cfg(miri)]
 			{
-				start_l = offsets_l.as_mut_ptr().cast();
+				start_l = MaybeUninit::slice_as_mut_ptr(&mut offsets_l);
 			}
 			#[cfg(not(miri))]
 			{
@@ -611,7 +611,7 @@ where
 			// Trace `block_r` elements from the right side.
 			#[cfg(miri)]
 			{
-				start_r = offsets_r.as_mut_ptr().cast();
+				start_r = MaybeUninit::slice_as_mut_ptr(&mut offsets_r);
 			}
 			#[cfg(not(miri))]
 			{
-- 
2.43.0

