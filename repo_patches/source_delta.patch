From 8101fefc570048a6c310a833f8043dae56262773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 01/10] fix: swap never waits for itself or in a cycle with
 another swap

swap(i, i) waited for the handle it was holding, and swap(i, j) concurrent
with swap(j, i) could wait for each other forever. Handles are now acquired
in the order of the memory locations of the elements.
---
 src/mut_elem.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mut_elem.rs b/src/mut_elem.rs
index 54139f5..405e82b 100644
--- a/src/mut_elem.rs
+++ b/src/mut_elem.rs
@@ -28,6 +28,17 @@ where
     /// assert_eq!(&vec, &[2, 1, 0, 3]);
     /// ```
     pub fn swap(&self, i: usize, j: usize) -> bool {
+        let (i, j) = match (self.get(i), self.get(j)) {
+            (Some(_), Some(_)) if i == j => return true,
+            // handles are always acquired in the order of memory locations of the elements;
+            // otherwise, two threads could wait for each other's handle
+            (Some(x), Some(y)) => match core::ptr::from_ref(x) < core::ptr::from_ref(y) {
+                true => (i, j),
+                false => (j, i),
+            },
+            _ => return false,
+        };
+
         let h_i = unsafe { self.mut_handle(i, SOME, SOME) };
         let h_j = unsafe { self.mut_handle(j, SOME, SOME) };
 
-- 
2.43.0


From f5c65ba94251558f0dea627ee43366319824e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 02/10] fix: len counts elements which are momentarily held by
 other threads

len stopped counting at an element being read or updated at that moment;
hence, elements whose push had completed could be left out of len, get and
all traversals.
---
 src/vec.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vec.rs b/src/vec.rs
index 10606d6..09759ba 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -3,6 +3,7 @@ use crate::ConcurrentSlice;
 use crate::{helpers::DefaultPinVec, state::ConcurrentVecState};
 use core::ops::RangeBounds;
 use core::sync::atomic::Ordering;
+use orx_concurrent_option::State;
 use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
@@ -128,9 +129,10 @@ where
         let iter = unsafe { self.core.iter_over_range(len..until) };
         let mut num_pushed = 0;
         for x in iter {
-            match x.0.is_some_with_order(Ordering::Relaxed) {
-                true => num_pushed += 1,
-                false => break,
+            // an element which is momentarily reserved by another thread has already been pushed
+            match x.0.state(Ordering::Relaxed) {
+                State::None => break,
+                _ => num_pushed += 1,
             }
         }
         let new_len = len + num_pushed;
-- 
2.43.0


From 4b7727163c2d5837eaa5c29372eadfe0261d14db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 03/10] fix: comparing two elements holds both of them while
 reading their values

the comparison read the values through references obtained after the elements
had been released; a concurrent update was a data race or a use after free.
---
 src/common_traits/eq.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common_traits/eq.rs b/src/common_traits/eq.rs
index 37db614..99a1dc3 100644
--- a/src/common_traits/eq.rs
+++ b/src/common_traits/eq.rs
@@ -1,10 +1,17 @@
 use crate::{ConcurrentElement, ConcurrentSlice, ConcurrentVec};
+use core::cmp::Ordering;
 
 // elem
 impl<T: PartialEq> PartialEq for ConcurrentElement<T> {
     #[inline]
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        // both elements are held during the comparison; and they are always acquired in the order
+        // of their memory locations so that concurrent comparisons cannot wait for each other
+        match core::ptr::from_ref(self).cmp(&core::ptr::from_ref(other)) {
+            Ordering::Equal => self.map(|x| x == x),
+            Ordering::Less => self.map(|x| other.map(|y| x == y)),
+            Ordering::Greater => other.map(|y| self.map(|x| x == y)),
+        }
     }
 }
 
-- 
2.43.0


From d35307d426bcd4ded601a61b7d2f05c41c868616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 04/10] fix: get_ref, get_raw, get_raw_mut and iter_ref wait
 for a held element

they reported an element as absent while it was momentarily held by another
thread, although it had been pushed before.
---
 src/concurrent_slice/unsafe_api.rs | 4 +---
 src/unsafe_api.rs                  | 9 ++++-----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/concurrent_slice/unsafe_api.rs b/src/concurrent_slice/unsafe_api.rs
index 8aefdc2..cca5b4f 100644
--- a/src/concurrent_slice/unsafe_api.rs
+++ b/src/concurrent_slice/unsafe_api.rs
@@ -1,6 +1,5 @@
 use super::ConcurrentSlice;
 use crate::ConcurrentElement;
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<'a, T, P> ConcurrentSlice<'a, T, P>
@@ -254,8 +253,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let b = self.a + self.len;
-        unsafe { self.vec.core.iter_over_range(self.a..b) }
-            .flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        unsafe { self.vec.core.iter_over_range(self.a..b) }.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
diff --git a/src/unsafe_api.rs b/src/unsafe_api.rs
index 24c4f29..3273081 100644
--- a/src/unsafe_api.rs
+++ b/src/unsafe_api.rs
@@ -1,5 +1,4 @@
 use crate::{ConcurrentElement, ConcurrentVec};
-use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -43,7 +42,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw())
             }
             false => None,
         }
@@ -159,7 +158,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = self.core.get(i);
-                maybe.and_then(|x| x.0.as_ref_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.as_ref())
             }
             false => None,
         }
@@ -270,7 +269,7 @@ where
     /// ```
     pub unsafe fn iter_ref(&self) -> impl Iterator<Item = &T> {
         let x = self.core.iter(self.reserved_len());
-        x.flat_map(|x| unsafe { x.0.as_ref_with_order(Ordering::SeqCst) })
+        x.flat_map(|x| unsafe { x.0.as_ref() })
     }
 
     // mut
@@ -308,7 +307,7 @@ where
         match i < self.reserved_len() {
             true => {
                 let maybe = unsafe { self.core.get(i) };
-                maybe.and_then(|x| x.0.get_raw_mut_with_order(Ordering::SeqCst))
+                maybe.and_then(|x| x.0.get_raw_mut())
             }
             false => None,
         }
-- 
2.43.0


From 80cfb303d8540fa8ce0f1fe6e8b947292411b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 05/10] fix: push_for_idx prepares the storage before computing
 the value

a panic in f while its index was the first one to require growth left all
other pushes waiting forever; so did a push to the same vector from f.
---
 src/grow.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grow.rs b/src/grow.rs
index c433a0d..d4b6337 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -156,10 +156,12 @@ where
         F: FnOnce(usize) -> T,
     {
         let idx = self.len_reserved().fetch_add(1, Ordering::Relaxed);
-        let value = f(idx);
 
+        // storage must be ready before calling `f`: other pushes wait for the growth of the
+        // storage, which might never happen if `f` panics or pushes to the same vector
         // # SAFETY: ConcurrentVec ensures that each `idx` will be written only and exactly once.
         let maybe = unsafe { self.core.single_item_as_ref(idx) };
+        let value = f(idx);
         unsafe { maybe.0.initialize_unchecked(value) };
 
         idx
-- 
2.43.0


From 9d1564ddeb4dff7d0ab33034544e9a1b69e3f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 06/10] fix: clear drops each value once and keeps the vector
 usable

clearing a vector with fixed capacity set the length of its storage to zero
without marking its elements as none: they were dropped again by later pushes
and by drop. With split storages it left the internal counts inconsistent so that
reserve_maximum_capacity panicked afterwards.
---
 src/exclusive.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index b7085e2..ebbe4b1 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,4 +1,5 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
+use core::sync::atomic::Ordering;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -7,7 +8,13 @@ where
 {
     /// Clears the concurrent bag.
     pub fn clear(&mut self) {
-        unsafe { self.core.clear(self.core.state().len()) };
+        let len = self.reserved_len();
+        // values are dropped while the storage is kept, in which all elements are none as required
+        for elem in unsafe { self.core.iter_mut(len) } {
+            drop(elem.0.exclusive_take());
+        }
+        self.len_written().store(0, Ordering::Relaxed);
+        self.len_reserved().store(0, Ordering::Relaxed);
     }
 
     /// Note that [`ConcurrentVec::maximum_capacity`] returns the maximum possible number of elements that the underlying pinned vector can grow to without reserving maximum capacity.
-- 
2.43.0


From c745a50b189b5290bdd973a5ba93664a0afcf882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 07/10] fix: positions reserved by failed pushes are not part
 of the taken storage

a refused push or extend leaves its position reserved. into_inner, to_vec,
into_iter and reserve_maximum_capacity used this number of reserved positions
as the length of the storage: it is beyond the storage (undefined behavior) or
leads to taking positions without a value.
---
 src/exclusive.rs |  6 +++++-
 src/vec.rs       | 22 +++++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index ebbe4b1..c4c2195 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -35,9 +35,13 @@ where
     ///
     /// This method can safely be called if entries in all positions 0..len are written.
     pub fn reserve_maximum_capacity(&mut self, new_maximum_capacity: usize) -> usize {
+        // positions reserved by failed pushes are given back; otherwise, they would be left
+        // behind as gaps within the increased capacity
+        let len = self.exclusive_len();
+        self.len_reserved().store(len, Ordering::Relaxed);
         unsafe {
             self.core
-                .reserve_maximum_capacity(self.core.state().len(), new_maximum_capacity)
+                .reserve_maximum_capacity(len, new_maximum_capacity)
         }
     }
 }
diff --git a/src/vec.rs b/src/vec.rs
index 09759ba..932fdba 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -85,7 +85,7 @@ where
     /// Any `PinnedVec` implementation can be converted to a `ConcurrentVec` using the `From` trait.
     /// Similarly, underlying pinned vector can be obtained by calling the consuming `into_inner` method.
     pub fn into_inner(self) -> P {
-        let len = self.core.state().len();
+        let len = self.exclusive_len();
         // # SAFETY: ConcurrentBag only allows to push to the end of the bag, keeping track of the length.
         // Therefore, the underlying pinned vector is in a valid condition at any given time.
         unsafe { self.core.into_inner(len) }
@@ -414,6 +414,26 @@ impl<T, P> ConcurrentVec<T, P>
 where
     P: IntoConcurrentPinnedVec<ConcurrentElement<T>>,
 {
+    /// Number of positions up to and including the last one having a value.
+    ///
+    /// It differs from the number of reserved positions only if the last pushes or extends
+    /// have failed; for instance, because the maximum capacity was reached.
+    ///
+    /// It must be called only when there exist no concurrent pushes; i.e., when the caller owns
+    /// the vector or has a mutable reference to it.
+    pub(crate) fn exclusive_len(&self) -> usize {
+        let is_none = |i: usize| {
+            unsafe { self.core.get(i) }.map_or(true, |x| {
+                matches!(x.0.state(Ordering::Relaxed), State::None)
+            })
+        };
+        let mut len = self.reserved_len();
+        while len > 0 && is_none(len - 1) {
+            len -= 1;
+        }
+        len
+    }
+
     pub(crate) fn new_from_pinned(pinned_vec: P) -> Self {
         Self {
             core: PinnedConcurrentCol::new_from_pinned(pinned_vec),
-- 
2.43.0


From e2870364f997a7777dd48536ff72eaf70d086efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 08/10] fix: reserve_maximum_capacity of a vector with fixed
 capacity moves to the new allocation

the storage was reallocated while pushes and reads continued to use the old
allocation.
---
 src/exclusive.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/exclusive.rs b/src/exclusive.rs
index c4c2195..964a7a7 100644
--- a/src/exclusive.rs
+++ b/src/exclusive.rs
@@ -1,5 +1,6 @@
 use crate::{elem::ConcurrentElement, ConcurrentVec};
 use core::sync::atomic::Ordering;
+use orx_pinned_concurrent_col::PinnedConcurrentCol;
 use orx_pinned_vec::IntoConcurrentPinnedVec;
 
 impl<T, P> ConcurrentVec<T, P>
@@ -39,9 +40,23 @@ where
         // behind as gaps within the increased capacity
         let len = self.exclusive_len();
         self.len_reserved().store(len, Ordering::Relaxed);
-        unsafe {
+        let capacity = self.capacity();
+        let maximum_capacity = unsafe {
             self.core
                 .reserve_maximum_capacity(len, new_maximum_capacity)
+        };
+
+        if self.capacity() != capacity {
+            // elements might have been moved to a new allocation (FixedVec), while the concurrent
+            // vec still points to the old one: it must be created again from its pinned vector
+            let len_written = self.len_written().load(Ordering::Relaxed);
+            let pseudo = PinnedConcurrentCol::new_from_pinned(P::pseudo_default());
+            let core = core::mem::replace(&mut self.core, pseudo);
+            let pinned_vec: P = unsafe { core.into_inner(len) };
+            self.core = PinnedConcurrentCol::new_from_pinned(pinned_vec);
+            self.len_written().store(len_written, Ordering::Relaxed);
         }
+
+        maximum_capacity
     }
 }
-- 
2.43.0


From d6247c21b93aea271504dd51fa73046a327db9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:45 +0000
Subject: [PATCH 09/10] fix: extend refuses more items than can ever fit before
 reserving positions

the number of reserved positions could overflow, after which positions which
are already written would be written again.
---
 src/grow.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/grow.rs b/src/grow.rs
index d4b6337..13e5458 100644
--- a/src/grow.rs
+++ b/src/grow.rs
@@ -313,6 +313,7 @@ where
         Iter: Iterator<Item = T> + ExactSizeIterator,
         F: FnOnce(usize) -> IntoIter,
     {
+        self.assert_can_hold(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = f(begin_idx).into_iter();
@@ -434,6 +435,7 @@ where
     where
         IntoIter: IntoIterator<Item = T>,
     {
+        self.assert_can_hold(num_items);
         let begin_idx = self.len_reserved().fetch_add(num_items, Ordering::Relaxed);
         let slices = unsafe { self.core.n_items_buffer_as_slices(begin_idx, num_items) };
         let mut values = values.into_iter();
@@ -449,4 +451,14 @@ where
 
         begin_idx
     }
+
+    /// Refuses a number of items which can never fit, before reserving any position for them;
+    /// otherwise, the number of reserved positions might overflow.
+    #[inline(always)]
+    fn assert_can_hold(&self, num_items: usize) {
+        assert!(
+            num_items <= self.maximum_capacity(),
+            "num_items exceeds the maximum capacity of the vector"
+        );
+    }
 }
-- 
2.43.0


From 76f512f30c914214a3fe390fb302dffcf8d9ef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 10/10] fix: sharing a vector requires values that may be moved
 to another thread

---
 src/elem.rs | 3 +++
 src/vec.rs  | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/elem.rs b/src/elem.rs
index 7f12c57..7bcf070 100644
--- a/src/elem.rs
+++ b/src/elem.rs
@@ -175,6 +175,9 @@ impl<T> ConcurrentElement<T> {
     }
 }
 
+// values can be moved out through a shared reference (replace, set, update); hence, `T: Send` is required
+unsafe impl<T: Send + Sync> Sync for ConcurrentElement<T> {}
+
 // constants
 
 const HAS_VALUE: &str = "ConcurrentElement must always have a value";
diff --git a/src/vec.rs b/src/vec.rs
index 932fdba..d0818a9 100644
--- a/src/vec.rs
+++ b/src/vec.rs
@@ -441,7 +441,8 @@ where
     }
 }
 
-unsafe impl<T: Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
+// values can be moved out through a shared reference (replace, set, swap); hence, `T: Send` is required
+unsafe impl<T: Send + Sync, P: IntoConcurrentPinnedVec<ConcurrentElement<T>>> Sync
     for ConcurrentVec<T, P>
 {
 }
-- 
2.43.0

