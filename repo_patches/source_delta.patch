From bc65398b449c7b2b3955a709393f7fbb1b5cd0d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 1/4] fix: do not let forward_by wrap around on huge offsets

`index + offset` could overflow: a panic in debug builds, and in release
builds the index moved backwards while `true` was returned. Saturate, as
`advance_by` and `forward_range_by` already do.
---
 src/container.rs | 2 +-
 src/indexing.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 2c54fb6..bf8efee 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -217,7 +217,7 @@ impl<'id, Array, T, Mode> Container<'id, Array, Mode>
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.len() {
             index.index = i;
             true
diff --git a/src/indexing.rs b/src/indexing.rs
index c701ab0..46b9283 100644
--- a/src/indexing.rs
+++ b/src/indexing.rs
@@ -265,7 +265,7 @@ impl<'id, P> Range<'id, P> {
     /// Return `true` if the index was incremented.
     #[inline]
     pub fn forward_by(&self, index: &mut Index<'id>, offset: usize) -> bool {
-        let i = index.index + offset;
+        let i = index.index.saturating_add(offset);
         if i < self.end {
             index.index = i;
             true
-- 
2.43.0


From ce465477f3eaf2676f9c8ade92b240db0df46452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 2/4] fix: scan_tail_ must only accept dereferenceable pointers

The result always includes `index`, so with an edge pointer (`past_the_end`)
it reached one element past the end of the container. Require a `NonEmpty`
pointer, like the index based `scan_from_rev`.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 9a7168e..52b1972 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -306,7 +306,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
     ///
     /// Result always includes `index` in the range
     #[inline]
-    pub fn scan_tail_<P, F>(&self, index: PIndex<'id, T, P>, mut f: F) -> PRange<'id, T, P>
+    pub fn scan_tail_<F>(&self, index: PIndex<'id, T>, mut f: F) -> PRange<'id, T, NonEmpty>
         where F: FnMut(&T) -> bool
     {
         unsafe {
-- 
2.43.0


From 4bcd75fab15658874e6d5bef449a46e044b08185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 3/4] fix: split_container_at_pointer needs a mutable container

It hands out containers of `&mut [T]`, so it must not be available on a
container of a shared slice.
---
 src/pointer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointer.rs b/src/pointer.rs
index 52b1972..0636126 100644
--- a/src/pointer.rs
+++ b/src/pointer.rs
@@ -377,7 +377,7 @@ impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
         }
     }
 }
-impl<'id, T, Array> Container<'id, Array> where Array: Contiguous<Item=T> {
+impl<'id, T, Array> Container<'id, Array> where Array: ContiguousMut<Item=T> {
     #[inline]
     pub fn split_container_at_pointer<P, F, Out>(&mut self, index: PIndex<'id, T, P>, f: F) -> Out
         //-> (PRange<'id, T>, PRange<'id, T, P>)
-- 
2.43.0


From 7b69368f626e21e75bffd45366fd0dfd2b958091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 4/4] fix: lower_bound_raw_ptr divided by zero for zero sized
 types

Count positions instead of dividing a pointer difference by the element size.
---
 src/algorithms.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/algorithms.rs b/src/algorithms.rs
index c92beb0..129e63e 100644
--- a/src/algorithms.rs
+++ b/src/algorithms.rs
@@ -813,28 +813,23 @@ pub fn lower_bound_pslice<T, F>(v: &[T], f: F) -> usize
 pub fn lower_bound_raw_ptr<T: PartialOrd>(v: &[T], elt: &T) -> usize {
     unsafe {
         let mut start = v.as_ptr();
-        let end = start.offset(v.len() as isize);
-        let mut count = ptrdistance(start, end);
+        let mut pos = 0;
+        let mut count = v.len();
         while count > 0 {
             let step = count / 2;
             let it = start.offset(step as isize);
             if *it < *elt {
                 start = it.offset(1);
+                pos += step + 1;
                 count -= step + 1;
             } else {
                 count = step;
             }
         }
-        ptrdistance(v.as_ptr(), start)
+        pos
     }
 }
 
-/// return the number of steps between a and b
-fn ptrdistance<T>(from: *const T, to: *const T) -> usize {
-    use std::mem;
-    (to as usize - from as usize) / mem::size_of::<T>()
-}
-
 
 #[test]
 fn test_lower_bound() {
-- 
2.43.0

