From 88447a76b177d6060e2e73334a63c961b394dbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 1/5] fix: drop already built elements when vector
 initialization panics

Vector::init and Vector::try_from_iter (and everything built on them: scan,
Default, zero, Matrix::init, ...) leaked the elements they had already
produced when the closure, Default/Zero impl or source iterator panicked.
---
 src/vector/base/init.rs | 36 +++++++++++++++++++++++++++++++++---
 src/vector/base/iter.rs | 17 +++++++----------
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/src/vector/base/init.rs b/src/vector/base/init.rs
index 66c8219..93cea21 100644
--- a/src/vector/base/init.rs
+++ b/src/vector/base/init.rs
@@ -2,7 +2,7 @@
 
 use super::Vector;
 use core::{
-    mem::MaybeUninit,
+    mem::{self, MaybeUninit},
     ops::{Index, IndexMut},
     ptr,
 };
@@ -32,14 +32,44 @@ impl<T, const N: usize> Vector<MaybeUninit<T>, N> {
     }
 }
 
+/// Owner of the already initialized elements of a partially initialized vector.
+///
+/// Drops them if the initialization is not finished (e.g. because of a panic).
+pub(super) struct InitGuard<'a, T> {
+    items: &'a mut [MaybeUninit<T>],
+    pub(super) pos: usize,
+}
+impl<'a, T> InitGuard<'a, T> {
+    pub(super) fn new(items: &'a mut [MaybeUninit<T>]) -> Self {
+        Self { items, pos: 0 }
+    }
+    /// Initialize the next element.
+    pub(super) fn push(&mut self, x: T) {
+        self.items[self.pos] = MaybeUninit::new(x);
+        self.pos += 1;
+    }
+    /// Pass the ownership of the initialized elements back to the vector.
+    pub(super) fn finish(self) {
+        mem::forget(self)
+    }
+}
+impl<'a, T> Drop for InitGuard<'a, T> {
+    fn drop(&mut self) {
+        let init = &mut self.items[..self.pos] as *mut [MaybeUninit<T>] as *mut [T];
+        unsafe { ptr::drop_in_place(init) }
+    }
+}
+
 impl<T, const N: usize> Vector<T, N> {
     /// Initialize a vector with values from closure.
     pub fn init<F: FnMut() -> T>(mut f: F) -> Self {
         let mut a = Vector::uninit();
 
-        for x in a.data.iter_mut() {
-            *x = MaybeUninit::new(f());
+        let mut guard = InitGuard::new(a.as_mut());
+        for _ in 0..N {
+            guard.push(f());
         }
+        guard.finish();
 
         unsafe { a.assume_init() }
     }
diff --git a/src/vector/base/iter.rs b/src/vector/base/iter.rs
index 37fd5bc..0116a21 100644
--- a/src/vector/base/iter.rs
+++ b/src/vector/base/iter.rs
@@ -1,4 +1,4 @@
-use super::Vector;
+use super::{init::InitGuard, Vector};
 use core::{
     array::IntoIter,
     convert::{TryFrom, TryInto},
@@ -62,25 +62,22 @@ impl<T, const N: usize> Vector<T, N> {
     {
         let mut a = Vector::uninit();
 
-        let mut pos: usize = 0;
-        for (x, y) in a.iter_mut().zip(iter) {
-            let _ = mem::replace(x, MaybeUninit::new(y));
-            pos += 1;
+        let mut guard = InitGuard::new(a.as_mut());
+        for y in iter.take(N) {
+            guard.push(y);
         }
+        let pos = guard.pos;
 
         // TODO: Use exclusive range pattern when it will be possible.
         #[allow(clippy::comparison_chain)]
         if pos > N {
             unreachable!();
         } else if pos == N {
+            guard.finish();
             Some(unsafe { a.assume_init() })
         } else {
             // Drop loaded items
-            unsafe {
-                for x in a.as_mut().get_unchecked_mut(0..pos) {
-                    mem::replace(x, MaybeUninit::uninit()).assume_init();
-                }
-            }
+            drop(guard);
             None
         }
     }
-- 
2.43.0


From 6bfc20d2d5ad14c06c29122b60658f578efe0825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:03 +0000
Subject: [PATCH 2/5] fix: don't stop at empty subsequences in FlatIter

FlatIter::next returned None as soon as one of the subsequences was empty,
so elements of the following ones were lost until next() was called again.
---
 src/matrix/base/iter.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index dcf7eaa..10de240 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -35,12 +35,13 @@ where
 {
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
-        self.subiter.next().or_else(|| {
-            self.iter.next().and_then(|a| {
-                self.subiter = a.into_iter();
-                self.subiter.next()
-            })
-        })
+        loop {
+            if let Some(x) = self.subiter.next() {
+                break Some(x);
+            }
+            // Subsequences may be empty.
+            self.subiter = self.iter.next()?.into_iter();
+        }
     }
 }
 
-- 
2.43.0


From 2219ed6b695ea35cc4a6faf2b3a54dd32d6c1585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:10 +0000
Subject: [PATCH 3/5] fix: make iteration over a matrix without rows possible

Matrix<T, 0, N>::iter(), iter_mut(), into_iter() and everything that uses
them (is_zero, compound assignment, any/all) panicked instead of yielding
nothing.
---
 src/matrix/base/iter.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/matrix/base/iter.rs b/src/matrix/base/iter.rs
index 10de240..e5a11b3 100644
--- a/src/matrix/base/iter.rs
+++ b/src/matrix/base/iter.rs
@@ -9,7 +9,7 @@ where
     II: Iterator,
 {
     iter: I,
-    subiter: II,
+    subiter: Option<II>,
 }
 
 impl<I, IT, II> FlatIter<I, IT, II>
@@ -22,9 +22,14 @@ where
     pub fn new(mut iter: I) -> Option<Self> {
         iter.next().map(|a| Self {
             iter,
-            subiter: a.into_iter(),
+            subiter: Some(a.into_iter()),
         })
     }
+    /// Create `FlatIter` from sequence of `IntoIter`s that is possibly empty.
+    fn new_or_empty(mut iter: I) -> Self {
+        let subiter = iter.next().map(|a| a.into_iter());
+        Self { iter, subiter }
+    }
 }
 
 impl<I, IT, II> Iterator for FlatIter<I, IT, II>
@@ -36,11 +41,11 @@ where
     type Item = II::Item;
     fn next(&mut self) -> Option<Self::Item> {
         loop {
-            if let Some(x) = self.subiter.next() {
+            if let Some(x) = self.subiter.as_mut()?.next() {
                 break Some(x);
             }
             // Subsequences may be empty.
-            self.subiter = self.iter.next()?.into_iter();
+            self.subiter = Some(self.iter.next()?.into_iter());
         }
     }
 }
@@ -48,11 +53,11 @@ where
 impl<T, const M: usize, const N: usize> Matrix<T, M, N> {
     /// Returns iterator over matrix element refrences.
     pub fn iter(&self) -> impl Iterator<Item = &T> {
-        FlatIter::new(self.data.iter()).unwrap()
+        FlatIter::new_or_empty(self.data.iter())
     }
     /// Returns iterator over matrix element mutable refrences.
     pub fn iter_mut(&mut self) -> impl Iterator<Item = &mut T> {
-        FlatIter::new(self.data.iter_mut()).unwrap()
+        FlatIter::new_or_empty(self.data.iter_mut())
     }
 }
 
@@ -67,14 +72,14 @@ impl<T, const M: usize, const N: usize> IntoIterator for Matrix<T, M, N> {
     >;
 
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.into_iter()).unwrap()
+        Self::IntoIter::new_or_empty(self.data.into_iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a Matrix<T, M, N> {
     type Item = &'a T;
     type IntoIter = FlatIter<slice::Iter<'a, Vector<T, N>>, &'a Vector<T, N>, slice::Iter<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter()).unwrap()
+        Self::IntoIter::new_or_empty(self.data.iter())
     }
 }
 impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M, N> {
@@ -82,7 +87,7 @@ impl<'a, T, const M: usize, const N: usize> IntoIterator for &'a mut Matrix<T, M
     type IntoIter =
         FlatIter<slice::IterMut<'a, Vector<T, N>>, &'a mut Vector<T, N>, slice::IterMut<'a, T>>;
     fn into_iter(self) -> Self::IntoIter {
-        Self::IntoIter::new(self.data.iter_mut()).unwrap()
+        Self::IntoIter::new_or_empty(self.data.iter_mut())
     }
 }
 
-- 
2.43.0


From 9a6baa746a2c978dcb3b5c29053e92402839a9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 4/5] fix: make formatting of zero-length vector possible

Debug and Display panicked on 'N - 1' underflow for Vector<T, 0>.
---
 src/vector/base/format.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/vector/base/format.rs b/src/vector/base/format.rs
index c76a13c..6e23d7c 100644
--- a/src/vector/base/format.rs
+++ b/src/vector/base/format.rs
@@ -7,10 +7,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{:?}, ", self[i])?;
+        for i in 0..N {
+            if i > 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{:?}", self[i])?;
         }
-        write!(f, "{:?})", self[N - 1])?;
+        write!(f, ")")?;
         Ok(())
     }
 }
@@ -21,10 +24,13 @@ where
 {
     fn fmt(&self, f: &mut Formatter) -> FmtResult {
         write!(f, "Vector{}(", N)?;
-        for i in 0..(N - 1) {
-            write!(f, "{}, ", self[i])?;
+        for i in 0..N {
+            if i > 0 {
+                write!(f, ", ")?;
+            }
+            write!(f, "{}", self[i])?;
         }
-        write!(f, "{})", self[N - 1])?;
+        write!(f, ")")?;
         Ok(())
     }
 }
-- 
2.43.0


From 052df017209d47673495ce8842e6479f2f46f55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 5/5] fix: make Uniform distribution of Rotation3 actually
 uniform

Uniformly distributed axis along with uniformly distributed angle isn't
uniform over the rotation group (small rotations are preferred, mean trace
of the rotation matrix is 1 instead of 0). Normalized normal quaternion is.
---
 src/transform/rotation.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/transform/rotation.rs b/src/transform/rotation.rs
index 02871af..5bb0dae 100644
--- a/src/transform/rotation.rs
+++ b/src/transform/rotation.rs
@@ -328,18 +328,11 @@ where
 #[cfg(feature = "rand")]
 impl<T> Distribution<Rotation3<T>> for Uniform
 where
-    Unit: Distribution<Vector<T, 3>>,
-    RangedUniform<T>: Distribution<T>,
-    T: SampleUniform + Float + FloatConst + NumCast,
+    Unit: Distribution<Quaternion<T>>,
 {
     fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Rotation3<T> {
-        Rotation3::new(
-            rng.sample(&Unit),
-            rng.sample(&RangedUniform::new(
-                T::zero(),
-                T::from(2.0).unwrap() * T::PI(),
-            )),
-        )
+        // Uniform axis along with uniform angle isn't uniform over the rotation group.
+        Rotation3::from_quaternion(rng.sample(&Unit))
     }
 }
 #[cfg(feature = "approx")]
-- 
2.43.0

