From baae9cd815c0860739d8ea797b7ba0895fdc9477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 01/12] fix: count elements which are reserved by concurrent
 readers in len

---
 src/vec.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 10606d6..8928928 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -3,6 +3,7 @@ use crate::ConcurrentSlice;
 use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
+use orx_concurrent_option::State;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -128,9 +129,10 @@ where
         let iter = unsafe { self.core.iter_over_range(len..until) };
         let mut num_pushed = 0;
         for x in iter {
-            match x.0.is_some_with_order(Ordering::Relaxed) {
-                true => num_pushed += 1,
-                false => break,
+            // an element which is temporarily reserved by a concurrent read or update is also written
+            match x.0.state(Ordering::Relaxed) {
+                State::Some | State::Reserved => num_pushed += 1,
+                State::None => break,
             }
         }
         let new_len = len + num_pushed;
-- 
2.43.0


From 75aee2e33da60003ba75f7413f9e7e0190cc5303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 02/12] fix: do not report elements as missing while they are
 being read concurrently

---
 src/concurrent_slice/unsafe_api.rs | 3 +--
 src/unsafe_api.rs                  | 9 ++++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/concurrent_slice/unsafe_api.rs b/src/concurrent_slice/unsafe_api.rs
index 8aefdc2..7174c68 100644
--- a/src/concurrent_slice/unsafe_api.rs
+++ b/src/concurrent_slice/unsafe_api.rs
@@ -1,6 +1,5 @@
 use super::ConcurrentSlice;
 use crate::ConcurrentElement;
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<'a, T, P> ConcurrentSlice<'a, T, P>
@@ -255,7 +254,7 @@ where
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let b = self.a + self.len;
         unsafe { self.vec.core.iter_over_range(self.a..b) }
-            .flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+            .flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
diff --git a/src/unsafe_api.rs b/src/unsafe_api.rs
index 24c4f29..3273081 100644
--- a/src/unsafe_api.rs
+++ b/src/unsafe_api.rs
@@ -1,5 +1,4 @@
 use crate::{ConcurrentElement, ConcurrentVec};
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -43,7 +42,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw())
             }
             false => None,
         }
@@ -159,7 +158,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = self.core.get(i);
-                maybe.and_then(|x| x.0.as_ref_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.as_ref())
             }
             false => None,
         }
@@ -270,7 +269,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let x = self.core.iter(self.reserved_len());
-        x.flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        x.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
@@ -308,7 +307,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_mut_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw_mut())
             }
             false => None,
         }
-- 
2.43.0


From 34ca1c1f2e5db2759f7599a186c651c455ea6e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 03/12] fix: prevent deadlocks of swap with equal indices or
 opposite orders

---
 src/mut_elem.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mut_elem.rs b/src/mut_elem.rs
index 54139f5..3488b09 100644
--- a/src/mut_elem.rs
+++ b/src/mut_elem.rs
@@ -28,6 +28,15 @@ where
     /// assert_eq!(&vec, &[2, 1, 0, 3]);
     /// ```
     pub fn swap(&self, i: usize, j: usize) -> bool {
+        // handles must be obtained in a global order, and only once for the same element;
+        // otherwise, concurrent swaps might wait for each other indefinitely
+        let (i, j) = match (self.get(i), self.get(j)) {
+            (Some(a), Some(b)) if core::ptr::eq(a, b) => return true,
+            (Some(a), Some(b)) if core::ptr::from_ref(a) < core::ptr::from_ref(b) => (i, j),
+            (Some(_), Some(_)) => (j, i),
+            _ => return false,
+        };
+
         let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
         let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
 
-- 
2.43.0


From d04bd48d8cf9a7b1f2806bd1567eb7186234be1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:46 +0000
Subject: [PATCH 04/12] fix: hold both elements while comparing them for
 equality

---
 src/common_traits/eq.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common_traits/eq.rs b/src/common_traits/eq.rs
index 37db614..cf3e786 100644
--- a/src/common_traits/eq.rs
+++ b/src/common_traits/eq.rs
@@ -1,10 +1,19 @@
 use crate::{ConcurrentElement, ConcurrentSlice, ConcurrentVec};
+use core::cmp::Ordering;
 
 // elem
 impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        // values must be compared while both elements are reserved;
+        // elements are reserved in the order of their addresses so that concurrent comparisons
+        // and swaps cannot wait for each other indefinitely
+        match core::ptr::from_ref(self).cmp(&core::ptr::from_ref(other)) {
+            #[allow(clippy::eq_op)]
+            Ordering::Equal => self.map(|x| x == x),
+            Ordering::Less => self.map(|x| other.map(|y| x == y)),
+            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
+        }
     }
 }
 
-- 
2.43.0


From 8dd7c7e4e7f3c4480d34677425a1920f38230fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 05/12] fix: do not block growth when the closure of
 push_for_idx panics

---
 src/grow.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grow.rs b/src/grow.rs
index c433a0d..bd1b7ee 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -156,10 +156,13 @@ where
         F: FnOnce(usize) -> T,
     {
         let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
-        let value = f(idx);
 
         // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
         let maybe = unsafe { self.core.single_item_as_ref(idx) };
+
+        // `f` must be called after growth; otherwise, other threads would wait for the growth
+        // until `f` returns, or indefinitely if `f` panics
+        let value = f(idx);
         unsafe { maybe.0.initialize_unchecked(value) };
 
         idx
-- 
2.43.0


From 4a1dabe26ba4940797b2d330653ef3925eb3c13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:57 +0000
Subject: [PATCH 06/12] fix: ignore failed reservations beyond capacity in
 exclusive methods

---
 src/exclusive.rs | 12 +++++++-----
 src/vec.rs       |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index b7085e2..ab479db 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -7,7 +8,8 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.core.state().len()) };
+        let len = self.reserved_len();
+        unsafe { self.core.clear(len) };
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
@@ -28,9 +30,9 @@ where
     ///
     /// This method can safely be called if entries in all positions 0..len are written.
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
-        unsafe {
-            self.core
-                .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
-        }
+        // reserved positions beyond the capacity, which caused a panic, are not occupied
+        let len = self.reserved_len();
+        self.len_reserved().store(len, Ordering::Relaxed);
+        unsafe { self.core.reserve_maximum_capacity(len, new_maximum_capacity) }
     }
 }
diff --git a/src/vec.rs b/src/vec.rs
index 8928928..56d89aa 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -85,7 +85,7 @@ where
     /// Any `PinnedVec` implementation can be converted to a `ConcurrentVec` using the `From` trait.
     /// Similarly, underlying pinned vector can be obtained by calling the consuming `into_inner` method.
     pub fn into_inner(self) -> P {
-        let len = self.core.state().len();
+        let len = self.reserved_len();
         // # SAFETY: ConcurrentBag only allows to push to the end of the bag, keeping track of the length.
         // Therefore, the underlying pinned vector is in a valid condition at any given time.
         unsafe { self.core.into_inner(len) }
-- 
2.43.0


From 2390bf98c3b51d90ff1d1ee8b7a3848e9dd2c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 07/12] fix: prevent overflow of reserved positions by
 oversized extensions

---
 src/grow.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/grow.rs b/src/grow.rs
index bd1b7ee..255b784 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -314,6 +314,7 @@ where
         Iter: Iterator<Item = T> + ExactSizeIterator,
         F: FnOnce(usize) -> IntoIter,
     {
+        self.assert_can_ever_fit(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = f(begin_idx).into_iter();
@@ -435,6 +436,7 @@ where
     where
         IntoIter: IntoIterator<Item = T>,
     {
+        self.assert_can_ever_fit(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = values.into_iter();
@@ -450,4 +452,14 @@ where
 
         begin_idx
     }
+
+    /// Panics before reserving positions if `num_items` can never fit;
+    /// otherwise, the reservation counter could overflow and already used positions could be reserved again.
+    #[inline(always)]
+    fn assert_can_ever_fit(&self, num_items: usize) {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "number of items to be added exceeds the maximum capacity of the vec"
+        );
+    }
 }
-- 
2.43.0


From cd900847c360cc911685c32430a11a72cc23b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:08 +0000
Subject: [PATCH 08/12] fix: take values out while clearing to prevent double
 drops

---
 src/exclusive.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index ab479db..cf05fcf 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -9,6 +9,13 @@ where
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
         let len = self.reserved_len();
+
+        // take the values out so that none of the cleared elements is left in the initialized state
+        self.len_written().store(0, Ordering::Relaxed);
+        for elem in unsafe { self.core.iter_mut(len) } {
+            _ = elem.0.exclusive_take();
+        }
+
         unsafe { self.core.clear(len) };
     }
 
-- 
2.43.0


From 6b70ae9eee1124a34fa154879ac114f4cd6c7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:14 +0000
Subject: [PATCH 09/12] fix: require T: Send for sharing elements among threads

---
 src/elem.rs | 3 +++
 src/vec.rs  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elem.rs b/src/elem.rs
index 7f12c57..354c6fb 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -10,6 +10,9 @@ use orx_concurrent_option::ConcurrentOption;
 /// [`vec.iter()`]: crate::ConcurrentVec::iter
 pub struct ConcurrentElement<T>(pub(crate) ConcurrentOption<T>);
 
+// values can be moved in and out through a shared reference, therefore, `T: Send` is also required
+unsafe impl<T: Send + Sync> Sync for ConcurrentElement<T> {}
+
 impl<T> From<ConcurrentOption<T>> for ConcurrentElement<T> {
     fn from(value: ConcurrentOption<T>) -> Self {
         Self(value)
diff --git a/src/vec.rs b/src/vec.rs
index 56d89aa..4a028ec 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -421,7 +421,8 @@ where
     }
 }
 
-unsafe impl<T: Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
+// values can be moved in and out through a shared reference, therefore, `T: Send` is also required
+unsafe impl<T: Send + Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
     for ConcurrentVec<T, P>
 {
 }
-- 
2.43.0


From 5f2503ed7ab53d3b9890e432f6120f3a732ffd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:51 +0000
Subject: [PATCH 10/12] fix: work on the current allocation after reserving
 maximum capacity

---
 src/exclusive.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index cf05fcf..f9eeb38 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,5 +1,6 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
 use core::sync::atomic::Ordering;
+use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -40,6 +41,21 @@ where
         // reserved positions beyond the capacity, which caused a panic, are not occupied
         let len = self.reserved_len();
         self.len_reserved().store(len, Ordering::Relaxed);
-        unsafe { self.core.reserve_maximum_capacity(len, new_maximum_capacity) }
+
+        // reserving might move the storage to a different allocation, hence, the concurrent
+        // collection must be re-created from the pinned vec to work on its current allocation
+        let maximum_capacity =
+            unsafe { self.core.reserve_maximum_capacity(len, new_maximum_capacity) };
+        self.recreate_core(len);
+
+        maximum_capacity
+    }
+
+    fn recreate_core(&mut self, len: usize) {
+        let len_written = self.len();
+        let empty = PinnedConcurrentCol::new_from_pinned(P::pseudo_default());
+        let core = core::mem::replace(&mut self.core, empty);
+        self.core = PinnedConcurrentCol::new_from_pinned(unsafe { core.into_inner(len) });
+        self.len_written().store(len_written, Ordering::Relaxed);
     }
 }
-- 
2.43.0


From 402258a346208b3f559d3f25220fa11a4ca2b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:56 +0000
Subject: [PATCH 11/12] fix: keep the ability to reserve and convert after
 clear

---
 src/exclusive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index f9eeb38..c7ccdc0 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -17,7 +17,8 @@ where
             _ = elem.0.exclusive_take();
         }
 
-        unsafe { self.core.clear(len) };
+        // collection is re-created rather than cleared in order to keep its maximum capacity
+        self.recreate_core(0);
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
-- 
2.43.0


From 484dc91b22dadc19258550293d8aa1e06399763c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:50 +0000
Subject: [PATCH 12/12] fix: reserve maximum capacity without exceeding the
 fragment limit of doubling growth

---
 src/exclusive.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index c7ccdc0..b89d552 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -45,8 +45,17 @@ where
 
         // reserving might move the storage to a different allocation, hence, the concurrent
         // collection must be re-created from the pinned vec to work on its current allocation
-        let maximum_capacity =
-            unsafe { self.core.reserve_maximum_capacity(len, new_maximum_capacity) };
+        // capacity is at most doubled at once, since SplitVec<_, Doubling> would otherwise reserve
+        // more fragments than required, possibly exceeding its maximum number of fragments
+        let mut maximum_capacity = self.maximum_capacity();
+        loop {
+            let step = maximum_capacity.saturating_mul(2).max(1);
+            let step = step.min(new_maximum_capacity);
+            maximum_capacity = unsafe { self.core.reserve_maximum_capacity(len, step) };
+            if maximum_capacity >= new_maximum_capacity {
+                break;
+            }
+        }
         self.recreate_core(len);
 
         maximum_capacity
-- 
2.43.0

