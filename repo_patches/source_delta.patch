From 34c8719636867ab3194dcc3458267a3881daa947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:47 +0000
Subject: [PATCH 01/19] fix: Chunk::from_front/from_back check count in release
 builds

The count was only debug_asserted, so a release build copied out of bounds
from safe code.
---
 src/sized_chunk/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index c269655..dca348c 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -196,10 +196,12 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Construct a new chunk and populate it by taking `count` items from the
     /// front of `other`.
     ///
+    /// Panics if `other` has fewer than `count` items.
+    ///
     /// Time: O(n) for the number of items moved
     pub fn from_front(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.left, 0, count, other, &mut chunk) };
         chunk.right = count;
@@ -210,10 +212,12 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Construct a new chunk and populate it by taking `count` items from the
     /// back of `other`.
     ///
+    /// Panics if `other` has fewer than `count` items.
+    ///
     /// Time: O(n) for the number of items moved
     pub fn from_back(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.right - count, 0, count, other, &mut chunk) };
         chunk.right = count;
-- 
2.43.0


From 8935eddf583f200675df3b10e6d615ed31b291bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 02/19] fix: insert_from room check can't overflow

An honest ExactSizeIterator such as 0..usize::MAX made len + insert_size wrap
in a release build, so the check passed and the copy went out of bounds.
---
 src/ring_buffer/mod.rs | 2 +-
 src/sized_chunk/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a6f2071..8f96c80 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -652,7 +652,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index dca348c..7ba2838 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -603,7 +603,7 @@ impl<A, const N: usize> Chunk<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From 6a9b092139add3b269be0b3c3b326141ac11abd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 03/19] fix: Chunk::insert_from asks the iterator for its
 length only once

The space was reserved for the first answer but the second one decided how many
values were written, so a safe ExactSizeIterator giving two different answers
wrote outside the reserved space.
---
 src/sized_chunk/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 7ba2838..d0144dc 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -275,7 +275,7 @@ impl<A, const N: usize> Chunk<A, N> {
         }
     }
 
-    /// Write values from iterator into range starting at write_index.
+    /// Write `len` values from iterator into range starting at write_index.
     ///
     /// Will overwrite values at the relevant range without dropping even in case the values were
     /// already initialized (it is expected they are empty). Does not update the left or right
@@ -290,7 +290,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// If the iterator panics, the chunk becomes conceptually empty and will leak any previous
     /// elements (even the ones outside the range).
     #[inline]
-    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, chunk: &mut Self)
+    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, len: usize, chunk: &mut Self)
     where
         I: ExactSizeIterator<Item = A>,
     {
@@ -303,7 +303,6 @@ impl<A, const N: usize> Chunk<A, N> {
         // Should we worry about some better panic recovery than this?
         let left = replace(&mut chunk.left, 0);
         let right = replace(&mut chunk.right, 0);
-        let len = iter.len();
         let expected_end = write_index + len;
         for value in iter.take(len) {
             Chunk::force_write(write_index, value, chunk);
@@ -619,14 +618,14 @@ impl<A, const N: usize> Chunk<A, N> {
             unsafe {
                 Chunk::force_copy(self.left, self.left - insert_size, left_size, self);
                 let write_index = real_index - insert_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.left -= insert_size;
         } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right += insert_size;
         } else {
@@ -634,7 +633,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::force_copy(self.left, 0, left_size, self);
                 Chunk::force_copy(real_index, left_size + insert_size, right_size, self);
                 let write_index = left_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.right -= self.left;
             self.right += insert_size;
-- 
2.43.0


From 983a8d2e68e2761acadd5ebbebd280a72c776f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 04/19] fix: a panicking element Drop can't make
 clear/drop_left/drop_right drop twice

Chunk, RingBuffer and InlineArray dropped the items while still claiming to own
them, so after a panic in one item's Drop the container dropped them again.
---
 src/inline_array/mod.rs |  4 +++-
 src/ring_buffer/mod.rs  | 22 ++++++++++++++--------
 src/sized_chunk/mod.rs  | 12 +++++++++---
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 4fea8f1..aebbbd1 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -394,9 +394,11 @@ impl<A, T> InlineArray<A, T> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
+        let len = self.len();
         unsafe {
-            self.drop_contents();
+            // Let go of the items first: if dropping one panics, it mustn't be dropped again.
             *self.len_mut() = 0;
+            ptr::drop_in_place(ptr::slice_from_raw_parts_mut(self.data_mut(), len));
         }
     }
 
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 8f96c80..0ee2014 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -467,11 +467,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
             if index > self.len() {
                 panic!("RingBuffer::drop_left: index out of bounds");
             }
-            for i in self.range().take(index) {
-                unsafe { self.force_drop(i) }
-            }
+            let dropped = self.range().take(index);
+            // Let go of the items first: if dropping one panics, it mustn't be dropped again.
             self.origin += index;
             self.length -= index;
+            for i in dropped {
+                unsafe { self.force_drop(i) }
+            }
         }
     }
 
@@ -487,10 +489,12 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if index == self.len() {
             return;
         }
-        for i in self.range().skip(index) {
+        let dropped = self.range().skip(index);
+        // Let go of the items first: if dropping one panics, it mustn't be dropped again.
+        self.length = index;
+        for i in dropped {
             unsafe { self.force_drop(i) }
         }
-        self.length = index;
     }
 
     /// Split a buffer into two, the original buffer containing
@@ -750,11 +754,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        for i in self.range() {
-            unsafe { self.force_drop(i) };
-        }
+        let dropped = self.range();
+        // Let go of the items first: if dropping one panics, it mustn't be dropped again.
         self.origin = 0.into();
         self.length = 0;
+        for i in dropped {
+            unsafe { self.force_drop(i) };
+        }
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index d0144dc..b9f8b5a 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -409,8 +409,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_left(&mut self, index: usize) {
         if index > 0 {
-            unsafe { ptr::drop_in_place(&mut self[..index]) }
+            let dropped: *mut [A] = &mut self[..index];
+            // Let go of the items first: if dropping one panics, it mustn't be dropped again.
             self.left += index;
+            unsafe { ptr::drop_in_place(dropped) }
         }
     }
 
@@ -421,8 +423,10 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_right(&mut self, index: usize) {
         if index != self.len() {
-            unsafe { ptr::drop_in_place(&mut self[index..]) }
+            let dropped: *mut [A] = &mut self[index..];
+            // Let go of the items first: if dropping one panics, it mustn't be dropped again.
             self.right = self.left + index;
+            unsafe { ptr::drop_in_place(dropped) }
         }
     }
 
@@ -676,9 +680,11 @@ impl<A, const N: usize> Chunk<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        unsafe { ptr::drop_in_place(self.as_mut_slice()) }
+        let dropped: *mut [A] = self.as_mut_slice();
+        // Let go of the items first: if dropping one panics, it mustn't be dropped again.
         self.left = 0;
         self.right = 0;
+        unsafe { ptr::drop_in_place(dropped) }
     }
 
     /// Get a reference to the contents of the chunk as a slice.
-- 
2.43.0


From d26548fe55a6d6161ee9f5cc98fb04293f570c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 05/19] fix: RingBuffer io::Write accepts a write that wraps
 around

copy_from_slice handles the wrap, but asserted in debug builds that there
wasn't one.
---
 src/ring_buffer/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 0ee2014..d78362e 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,7 +189,6 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
-        debug_assert!(to.to_usize() + count <= Self::CAPACITY);
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 76756e36defa2640363f09262cf46cd2ee8c3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 06/19] fix: indexing a RingBuffer Slice/SliceMut can't reach
 outside the slice

The index was only checked against the whole buffer, so slice[i] reached past
the end of the slice, and the two halves of SliceMut::split_at could hand out
two mutable references to one item.
---
 src/ring_buffer/slice.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index a54bb7a..d2dcc52 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -164,6 +164,13 @@ impl<'a, A: 'a, const N: usize> Index<usize> for Slice<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!(
+                "Slice::index: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -442,6 +449,13 @@ impl<'a, A: 'a, const N: usize> Index<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!(
+                "Slice::index: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -450,6 +464,13 @@ impl<'a, A: 'a, const N: usize> IndexMut<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        if index >= self.len() {
+            panic!(
+                "Slice::index_mut: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index_mut(self.range.start + index)
     }
 }
-- 
2.43.0


From e19fdbac370d725e8837904a482bec6f162032c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 07/19] fix: RingBuffer slice ranges ending at usize::MAX are
 out of bounds

The bounds arithmetic wrapped in release builds, so ..=usize::MAX was accepted
as an empty range, and a subslice could start before its parent.
---
 src/ring_buffer/mod.rs   |  2 +-
 src/ring_buffer/slice.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index d78362e..881a13b 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -350,7 +350,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
-                Bound::Included(index) => *index + 1,
+                Bound::Included(index) => index.saturating_add(1),
                 Bound::Excluded(index) => *index,
             },
         };
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index d2dcc52..19d1059 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -76,13 +76,15 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => {
+                    self.range.start.saturating_add(*index).saturating_add(1)
+                }
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
@@ -364,13 +366,15 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => {
+                    self.range.start.saturating_add(*index).saturating_add(1)
+                }
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
-- 
2.43.0


From 0aee8432066eec8e016c4ece7c9f18c06a3018e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 08/19] fix: Chunk and InlineArray hash the way their
 Borrow<[A]> requires

Borrow requires equal hashes for the owned and borrowed values, but the slice
hashes its length too, so a map keyed by chunks couldn't be queried by slice.
---
 src/inline_array/mod.rs | 5 ++---
 src/sized_chunk/mod.rs  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index aebbbd1..01ceded 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -525,9 +525,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // Has to agree with `Borrow<[A]>`.
+        self.deref().hash(hasher)
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index b9f8b5a..dddf8d0 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -751,9 +751,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // Has to agree with `Borrow<[A]>`.
+        self.as_slice().hash(hasher)
     }
 }
 
-- 
2.43.0


From 78b83864f952b7e0272bfe1c3651bb7467db1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 09/19] fix: InlineArray::new accepts a host with room for just
 the header

The documentation only rules out hosts smaller than usize; a capacity of zero is
handled properly everywhere else.
---
 src/inline_array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 01ceded..daafd91 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -258,7 +258,7 @@ impl<A, T> InlineArray<A, T> {
     #[inline]
     #[must_use]
     pub fn new() -> Self {
-        assert!(Self::HOST_SIZE > Self::HEADER_SIZE);
+        assert!(Self::HOST_SIZE >= Self::HEADER_SIZE);
         assert!(
             (Self::CAPACITY == 0) || (mem::align_of::<Self>() % mem::align_of::<A>() == 0),
             "InlineArray can't satisfy alignment of {}",
-- 
2.43.0


From 05a797cbb794013a7aa7b9c470e53f5529cdb71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 10/19] fix: a RingBuffer of capacity zero can be made and used

RingBuffer::new() failed a debug assertion, and in release builds the raw index
arithmetic looped forever.
---
 src/ring_buffer/index.rs | 7 ++++---
 src/ring_buffer/mod.rs   | 3 +++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 2190aae..573c275 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -46,7 +46,8 @@ impl<const N: usize> From<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn from(index: usize) -> Self {
-        debug_assert!(index < N);
+        // The only index of a buffer without any room is 0.
+        debug_assert!(index < N || index == 0);
         RawIndex(index)
     }
 }
@@ -76,7 +77,7 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
         let mut result = self.0 + other;
-        while result >= N {
+        while N > 0 && result >= N {
             result -= N;
         }
         result.into()
@@ -87,7 +88,7 @@ impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
         self.0 += other;
-        while self.0 >= N {
+        while N > 0 && self.0 >= N {
             self.0 -= N;
         }
     }
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 881a13b..1b5a210 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,6 +189,9 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
+        if count == 0 {
+            return;
+        }
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 9fbd6ba4bd639ef07cdb4d7b4e0df06bd669acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 11/19] fix: SparseChunk's mutable iterators don't invalidate
 what they handed out

Each next() took a new &mut to all of the values, aliasing the references
returned before (undefined behaviour under Rust's aliasing rules).
---
 src/sparse_chunk/iter.rs | 34 ++++++++++++++++------------------
 src/sparse_chunk/mod.rs  | 11 +++++++++--
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/sparse_chunk/iter.rs b/src/sparse_chunk/iter.rs
index a9cb392..7ce03c7 100644
--- a/src/sparse_chunk/iter.rs
+++ b/src/sparse_chunk/iter.rs
@@ -1,4 +1,6 @@
 use bitmaps::{Bitmap, Bits, BitsImpl, Iter as BitmapIter};
+use core::mem::MaybeUninit;
+use core::slice::IterMut as SliceIterMut;
 
 use super::SparseChunk;
 
@@ -32,7 +34,9 @@ where
     BitsImpl<N>: Bits,
 {
     pub(crate) bitmap: Bitmap<N>,
-    pub(crate) chunk: &'a mut SparseChunk<A, N>,
+    // The index of the first of the remaining `slots`.
+    pub(crate) index: usize,
+    pub(crate) slots: SliceIterMut<'a, MaybeUninit<A>>,
 }
 
 impl<'a, A, const N: usize> Iterator for IterMut<'a, A, N>
@@ -44,10 +48,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         if let Some(index) = self.bitmap.first_index() {
             self.bitmap.set(index, false);
-            unsafe {
-                let p: *mut A = &mut self.chunk.values_mut()[index];
-                Some(&mut *p)
-            }
+            let slot = self.slots.nth(index - self.index)?;
+            self.index = index + 1;
+            Some(unsafe { &mut *slot.as_mut_ptr() })
         } else {
             None
         }
@@ -130,7 +133,8 @@ where
     BitsImpl<N>: Bits,
 {
     pub(crate) index: usize,
-    pub(crate) chunk: &'a mut SparseChunk<A, N>,
+    pub(crate) bitmap: Bitmap<N>,
+    pub(crate) slots: SliceIterMut<'a, MaybeUninit<A>>,
 }
 
 impl<'a, A, const N: usize> Iterator for OptionIterMut<'a, A, N>
@@ -140,20 +144,14 @@ where
     type Item = Option<&'a mut A>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.index < N {
-            let result = if self.chunk.map.get(self.index) {
-                unsafe {
-                    let p: *mut A = &mut self.chunk.values_mut()[self.index];
-                    Some(Some(&mut *p))
-                }
-            } else {
-                Some(None)
-            };
-            self.index += 1;
-            result
+        let slot = self.slots.next()?;
+        let result = if self.bitmap.get(self.index) {
+            Some(unsafe { &mut *slot.as_mut_ptr() })
         } else {
             None
-        }
+        };
+        self.index += 1;
+        Some(result)
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
diff --git a/src/sparse_chunk/mod.rs b/src/sparse_chunk/mod.rs
index b0ac43b..bcffe40 100644
--- a/src/sparse_chunk/mod.rs
+++ b/src/sparse_chunk/mod.rs
@@ -100,6 +100,11 @@ where
         unsafe { from_raw_parts_mut(&mut self.data as *mut _ as *mut A, N) }
     }
 
+    #[inline]
+    fn slots_mut(&mut self) -> &mut [MaybeUninit<A>] {
+        unsafe { from_raw_parts_mut(&mut self.data as *mut _ as *mut MaybeUninit<A>, N) }
+    }
+
     /// Copy the value at an index, discarding ownership of the copied value
     #[inline]
     unsafe fn force_read(index: usize, chunk: &Self) -> A {
@@ -256,7 +261,8 @@ where
     pub fn iter_mut(&mut self) -> IterMut<'_, A, N> {
         IterMut {
             bitmap: self.map,
-            chunk: self,
+            index: 0,
+            slots: self.slots_mut().iter_mut(),
         }
     }
 
@@ -288,8 +294,9 @@ where
     /// returning an `Option<&mut A>` for each index.
     pub fn option_iter_mut(&mut self) -> OptionIterMut<'_, A, N> {
         OptionIterMut {
-            chunk: self,
             index: 0,
+            bitmap: self.map,
+            slots: self.slots_mut().iter_mut(),
         }
     }
 
-- 
2.43.0


From c7fed75e894a17c874f99b885d0d6a0fb18304bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 12/19] fix: RingBuffer and SliceMut swap/map_pair don't
 invalidate their own references

---
 src/ring_buffer/mod.rs   | 24 ++++++++++++++++++++++++
 src/ring_buffer/slice.rs | 19 +++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 1b5a210..1b14d68 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -105,6 +105,30 @@ impl<A, const N: usize> ArrayMut for RingBuffer<A, N> {
             Some(unsafe { self.get_unchecked_mut(index) })
         }
     }
+
+    /// Swap the elements at two indexes.
+    fn swap(&mut self, index1: usize, index2: usize) {
+        if index1 != index2 {
+            self.map_pair(index1, index2, core::mem::swap)
+        }
+    }
+
+    /// Get mutable references to the elements at two indexes and call a function on them.
+    fn map_pair<F, B>(&mut self, index1: usize, index2: usize, mut f: F) -> B
+    where
+        F: FnMut(&mut A, &mut A) -> B,
+    {
+        if index1 == index2 {
+            panic!("RingBuffer::map_pair: indices cannot be equal!");
+        }
+        if index1 >= self.len() || index2 >= self.len() {
+            panic!("RingBuffer::map_pair: index out of bounds");
+        }
+        let raw1 = self.raw(index1).to_usize();
+        let raw2 = self.raw(index2).to_usize();
+        let data: *mut A = self.data.as_mut_ptr().cast();
+        unsafe { f(&mut *data.add(raw1), &mut *data.add(raw2)) }
+    }
 }
 
 impl<A, const N: usize> RingBuffer<A, N> {
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 19d1059..2e16a86 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -299,6 +299,25 @@ impl<'a, A: 'a, const N: usize> ArrayMut for SliceMut<'a, A, N> {
             Some(unsafe { self.get_unchecked_mut(index) })
         }
     }
+
+    /// Swap the elements at two indexes.
+    fn swap(&mut self, index1: usize, index2: usize) {
+        if index1 != index2 {
+            self.map_pair(index1, index2, core::mem::swap)
+        }
+    }
+
+    /// Get mutable references to the elements at two indexes and call a function on them.
+    fn map_pair<F, B>(&mut self, index1: usize, index2: usize, f: F) -> B
+    where
+        F: FnMut(&mut A, &mut A) -> B,
+    {
+        if index1 >= self.len() || index2 >= self.len() {
+            panic!("SliceMut::map_pair: index out of bounds");
+        }
+        let start = self.range.start;
+        self.buffer.map_pair(start + index1, start + index2, f)
+    }
 }
 
 impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
-- 
2.43.0


From d7b0aa1bda11c1754718e1cbb87327b2bc4efc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 13/19] fix: sorting a RingBuffer or SliceMut with equal
 elements can't panic

---
 src/ring_buffer/mod.rs   | 41 ++++++++++++++++++++++++++++++++++++++++
 src/ring_buffer/slice.rs |  8 ++++++++
 2 files changed, 49 insertions(+)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 1b14d68..ad6022c 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -129,6 +129,47 @@ impl<A, const N: usize> ArrayMut for RingBuffer<A, N> {
         let data: *mut A = self.data.as_mut_ptr().cast();
         unsafe { f(&mut *data.add(raw1), &mut *data.add(raw2)) }
     }
+
+    /// Sort the elements of the array using a comparator function.
+    fn sort_unstable_by<F>(&mut self, compare: F)
+    where
+        F: FnMut(&A, &A) -> Ordering,
+    {
+        heapsort(self, compare)
+    }
+}
+
+/// Sort an array in place.
+///
+/// `ArrayMut`'s own `sort_unstable_by` goes out of bounds on an empty array and
+/// on some arrays with equal elements.
+fn heapsort<A, S, F>(array: &mut S, mut compare: F)
+where
+    S: ArrayMut<Output = A>,
+    F: FnMut(&A, &A) -> Ordering,
+{
+    let mut sift_down = |array: &mut S, mut node: usize, len: usize| loop {
+        let mut child = 2 * node + 1;
+        if child >= len {
+            break;
+        }
+        if child + 1 < len && compare(&array[child], &array[child + 1]) == Ordering::Less {
+            child += 1;
+        }
+        if compare(&array[node], &array[child]) != Ordering::Less {
+            break;
+        }
+        array.swap(node, child);
+        node = child;
+    };
+    let len = array.len();
+    for node in (0..len / 2).rev() {
+        sift_down(array, node, len);
+    }
+    for end in (1..len).rev() {
+        array.swap(0, end);
+        sift_down(array, 0, end);
+    }
 }
 
 impl<A, const N: usize> RingBuffer<A, N> {
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 2e16a86..3407a95 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -318,6 +318,14 @@ impl<'a, A: 'a, const N: usize> ArrayMut for SliceMut<'a, A, N> {
         let start = self.range.start;
         self.buffer.map_pair(start + index1, start + index2, f)
     }
+
+    /// Sort the elements of the array using a comparator function.
+    fn sort_unstable_by<F>(&mut self, compare: F)
+    where
+        F: FnMut(&A, &A) -> Ordering,
+    {
+        super::heapsort(self, compare)
+    }
 }
 
 impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
-- 
2.43.0


From 450d83032aab758721d0fc8d88801d530f5f6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:09 +0000
Subject: [PATCH 14/19] fix: Arbitrary::size_hint of an InlineArray of
 zero-sized values can't overflow

---
 src/arbitrary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index f82b7a8..1373026 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -27,7 +27,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
 }
@@ -49,7 +49,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
 }
@@ -71,7 +71,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = Option::<A>::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
 }
@@ -92,7 +92,7 @@ where
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
             let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            (0, upper.and_then(|upper| upper.checked_mul(Self::CAPACITY)))
         })
     }
 }
-- 
2.43.0


From f7e1f9175e1318ab7fe142417630a55f83ddb983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 15/19] fix: Chunk moves elements within its storage through
 one pointer

The source pointer came from a shared borrow that making the target pointer
ended, so Miri (Stacked Borrows) reported undefined behaviour in every insert
and remove that moves elements.
---
 src/sized_chunk/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index dddf8d0..fe1303f 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -271,7 +271,8 @@ impl<A, const N: usize> Chunk<A, N> {
     #[inline]
     unsafe fn force_copy(from: usize, to: usize, count: usize, chunk: &mut Self) {
         if count > 0 {
-            ptr::copy(chunk.ptr(from), chunk.mut_ptr(to), count)
+            let data = chunk.mut_ptr(0);
+            ptr::copy(data.add(from), data.add(to), count)
         }
     }
 
-- 
2.43.0


From 9f56c1a851890aa724df7e44d2f4377f12815e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 16/19] fix: InlineArray::remove doesn't use a pointer that
 writing the length ended

Miri (Stacked Borrows) reported undefined behaviour in every remove.
---
 src/inline_array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index daafd91..7e81eb8 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -356,8 +356,8 @@ impl<A, T> InlineArray<A, T> {
             unsafe {
                 let src = self.ptr_at_mut(index);
                 let value = ptr::read(src);
+                ptr::copy(src.add(1), src, self.len() - index - 1);
                 *self.len_mut() -= 1;
-                ptr::copy(src.add(1), src, self.len() - index);
                 Some(value)
             }
         }
-- 
2.43.0


From 32b80be5a6ec14b90a988abe3e99ab5d8a1d5416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:02 +0000
Subject: [PATCH 17/19] fix: InlineArray's elements may be modified through
 shared references

The host type says nothing about the elements: with elements such as Cell or
AtomicUsize, writing through a shared reference modified bytes that the
compiler takes to be immutable.
---
 src/inline_array/mod.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 7e81eb8..a751b34 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -7,6 +7,7 @@
 //! See [`InlineArray`](struct.InlineArray.html)
 
 use core::borrow::{Borrow, BorrowMut};
+use core::cell::UnsafeCell;
 use core::cmp::Ordering;
 use core::fmt::{Debug, Error, Formatter};
 use core::hash::{Hash, Hasher};
@@ -106,7 +107,21 @@ pub struct InlineArray<A, T> {
     // are correct) or will save us (if we are not).
     _header_align: [(u64, usize); 0],
     _phantom: PhantomData<A>,
-    data: MaybeUninit<T>,
+    // The elements may be modified through a shared reference (`Cell`, `AtomicUsize`), whatever `T`
+    // is. The compiler would otherwise take these bytes to be immutable while they are shared.
+    data: UnsafeCell<MaybeUninit<T>>,
+}
+
+// What these would be if `data` weren't in an `UnsafeCell`: the array by itself never modifies it
+// through a shared reference.
+unsafe impl<A: Sync, T: Sync> Sync for InlineArray<A, T> {}
+
+#[cfg(feature = "std")]
+impl<A, T> std::panic::RefUnwindSafe for InlineArray<A, T>
+where
+    A: std::panic::RefUnwindSafe,
+    T: std::panic::RefUnwindSafe,
+{
 }
 
 const fn capacity(
@@ -151,7 +166,7 @@ impl<A, T> InlineArray<A, T> {
     unsafe fn len_const(&self) -> *const usize {
         let ptr = self
             .data
-            .as_ptr()
+            .get()
             .cast::<A>()
             .add(Self::HEADER_SKIP)
             .cast::<usize>();
@@ -164,6 +179,7 @@ impl<A, T> InlineArray<A, T> {
     pub(crate) unsafe fn len_mut(&mut self) -> *mut usize {
         let ptr = self
             .data
+            .get_mut()
             .as_mut_ptr()
             .cast::<A>()
             .add(Self::HEADER_SKIP)
@@ -180,7 +196,7 @@ impl<A, T> InlineArray<A, T> {
         }
         let ptr = self
             .data
-            .as_ptr()
+            .get()
             .cast::<usize>()
             .add(Self::ELEMENT_SKIP)
             .cast::<A>();
@@ -196,6 +212,7 @@ impl<A, T> InlineArray<A, T> {
         }
         let ptr = self
             .data
+            .get_mut()
             .as_mut_ptr()
             .cast::<usize>()
             .add(Self::ELEMENT_SKIP)
@@ -268,17 +285,17 @@ impl<A, T> InlineArray<A, T> {
         let mut self_ = Self {
             _header_align: [],
             _phantom: PhantomData,
-            data: MaybeUninit::uninit(),
+            data: UnsafeCell::new(MaybeUninit::uninit()),
         };
         // Sanity check our assumptions about what is guaranteed by the compiler. If we are right,
         // these should completely optimize out of the resulting binary.
         assert_eq!(
             &self_ as *const _ as usize,
-            self_.data.as_ptr() as usize,
+            self_.data.get() as usize,
             "Padding at the start of struct",
         );
         assert_eq!(
-            self_.data.as_ptr() as usize % mem::align_of::<usize>(),
+            self_.data.get() as usize % mem::align_of::<usize>(),
             0,
             "Unaligned header"
         );
-- 
2.43.0


From a10fc6d57e931b9d90581165c6d33503b587ca11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:12 +0000
Subject: [PATCH 18/19] fix: RingBuffer's indices can't overflow when its
 capacity is near usize::MAX

Values without size allow for such capacities. From a rotated buffer, the sum of two
indices was more than a usize can hold: a panic with debug assertions, a wrong index
without them.
---
 src/ring_buffer/index.rs | 45 ++++++++++++++++++++++++----------------
 src/ring_buffer/mod.rs   |  8 +++----
 2 files changed, 31 insertions(+), 22 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 573c275..91bbda9 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -40,6 +40,29 @@ impl<const N: usize> RawIndex<N> {
         self.0 = if self.0 == 0 { N - 1 } else { self.0 - 1 };
         *self
     }
+
+    /// The index `distance` after this one, wrapping around. The sum of the two may be more than a
+    /// `usize` can hold, if the elements have no size and `N` is as large as that allows.
+    #[inline]
+    fn forward(self, mut distance: usize) -> usize {
+        let mut index = self.0;
+        while N > 0 && distance >= N - index {
+            distance -= N - index;
+            index = 0;
+        }
+        index + distance
+    }
+
+    /// The index `distance` before this one, wrapping around.
+    #[inline]
+    fn backward(self, mut distance: usize) -> usize {
+        let mut index = self.0;
+        while distance > index {
+            distance -= index;
+            index = N;
+        }
+        index - distance
+    }
 }
 
 impl<const N: usize> From<usize> for RawIndex<N> {
@@ -76,21 +99,14 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
-        let mut result = self.0 + other;
-        while N > 0 && result >= N {
-            result -= N;
-        }
-        result.into()
+        self.forward(other).into()
     }
 }
 
 impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
-        self.0 += other;
-        while N > 0 && self.0 >= N {
-            self.0 -= N;
-        }
+        self.0 = self.forward(other);
     }
 }
 
@@ -108,21 +124,14 @@ impl<const N: usize> Sub<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn sub(self, other: usize) -> Self::Output {
-        let mut start = self.0;
-        while other > start {
-            start += N;
-        }
-        (start - other).into()
+        self.backward(other).into()
     }
 }
 
 impl<const N: usize> SubAssign<usize> for RawIndex<N> {
     #[inline]
     fn sub_assign(&mut self, other: usize) {
-        while other > self.0 {
-            self.0 += N;
-        }
-        self.0 -= other;
+        self.0 = self.backward(other);
     }
 }
 
diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index ad6022c..4b40db8 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -229,18 +229,18 @@ impl<A, const N: usize> RingBuffer<A, N> {
             count: usize,
         ) {
             if count > 0 {
-                debug_assert!(from.to_usize() + count <= RingBuffer::<A, N>::CAPACITY);
-                debug_assert!(to.to_usize() + count <= RingBuffer::<A, N>::CAPACITY);
+                debug_assert!(count <= RingBuffer::<A, N>::CAPACITY - from.to_usize());
+                debug_assert!(count <= RingBuffer::<A, N>::CAPACITY - to.to_usize());
                 core::ptr::copy_nonoverlapping(source.mut_ptr(from), target.mut_ptr(to), count)
             }
         }
 
-        if from.to_usize() + count > Self::CAPACITY {
+        if count > Self::CAPACITY - from.to_usize() {
             let first_length = Self::CAPACITY - from.to_usize();
             let last_length = count - first_length;
             self.copy_from(source, from, to, first_length);
             self.copy_from(source, 0.into(), to + first_length, last_length);
-        } else if to.to_usize() + count > Self::CAPACITY {
+        } else if count > Self::CAPACITY - to.to_usize() {
             let first_length = Self::CAPACITY - to.to_usize();
             let last_length = count - first_length;
             force_copy_to(source, from, self, to, first_length);
-- 
2.43.0


From ae12525fadcae5ac6badd394c1b3005fd6f61486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:03 +0000
Subject: [PATCH 19/19] fix: Chunk's append, drain_from_front and insert_from
 can't overflow near usize::MAX

Values without size allow for capacities near usize::MAX, and push_front starts at the end.
---
 src/sized_chunk/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index fe1303f..d560b13 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -465,7 +465,7 @@ impl<A, const N: usize> Chunk<A, N> {
         if self_len + other_len > N {
             panic!("Chunk::append: chunk size overflow");
         }
-        if self.right + other_len > N {
+        if other_len > N - self.right {
             unsafe { Chunk::force_copy(self.left, 0, self_len, self) };
             self.right -= self.left;
             self.left = 0;
@@ -488,7 +488,7 @@ impl<A, const N: usize> Chunk<A, N> {
         let other_len = other.len();
         assert!(self_len + count <= N);
         assert!(other_len >= count);
-        if self.right + count > N {
+        if count > N - self.right {
             unsafe { Chunk::force_copy(self.left, 0, self_len, self) };
             self.right -= self.left;
             self.left = 0;
@@ -626,7 +626,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::write_from_iter(write_index, iter, insert_size, self);
             }
             self.left -= insert_size;
-        } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
+        } else if self.left == 0 || insert_size <= Self::CAPACITY - self.right {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-- 
2.43.0

