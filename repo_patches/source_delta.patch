From 66d91cbaff374afb343116f697af68d7fd6b44a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 01/19] fix: size the result of scalar_collect by what was
 stored

When no partial vector was left the result was given the length of the whole
iterator, so collecting an iterator which had already been advanced (or
collecting twice) exposed uninitialized memory.
---
 src/iters.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index 0c4c5a8..3ad510e 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -727,7 +727,7 @@ impl<'a, T, I> IntoScalar<T> for I
                 }
                 ret.set_len(self.width() + offset - n);
             } else {
-                ret.set_len(self.len() * self.width());
+                ret.set_len(offset);
             }
         }
         ret
-- 
2.43.0


From 6f09656564cb141157a48ee4ff1eaf539101ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 02/19] fix: return every stored element from
 scalar_collect_all

The result had one element per vector, and the rest was stored past its end.
---
 src/iters.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 3ad510e..d60e876 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -769,9 +769,20 @@ impl<'a, T, I> IntoScalar<T> for I
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
         let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
 
+        let mut offset = 0;
+
         unsafe {
-            ret.set_len(self.len());
-            self.scalar_fill_all(ret.as_mut_slice());
+            ret.set_len((self.len() + 1) * self.width());
+            while let Some(vec) = self.next() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+
+            if let Some((vec, _)) = self.end() {
+                vec.store_unchecked(&mut ret, offset);
+                offset += self.width();
+            }
+            ret.set_len(offset);
         }
         ret
     }
-- 
2.43.0


From cad14c45f6f49084bd36809f7828628d88ed2d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 03/19] fix: refuse to fill a destination which is too short

scalar_fill and scalar_fill_all stored a whole vector at any offset within the
destination, and so past its end when it was too short.
---
 src/iters.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index d60e876..da304c8 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -739,7 +739,7 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut lastvec = Self::Vector::default();
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
             lastvec = vec;
         }
@@ -747,10 +747,8 @@ impl<'a, T, I> IntoScalar<T> for I
         if let Some((p, n)) = self.end() {
             if offset > 0 {
                 // We stored a vector in this buffer; overwrite the unused elements
-                unsafe {
-                    p.store_unchecked(fill, offset - n);
-                    lastvec.store_unchecked(fill, offset - self.width());
-                }
+                p.store(fill, offset - n);
+                lastvec.store(fill, offset - self.width());
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
@@ -792,12 +790,12 @@ impl<'a, T, I> IntoScalar<T> for I
         let mut offset = 0;
 
         while let Some(vec) = self.next() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
             offset += self.width();
         }
 
         if let Some((vec, _)) = self.end() {
-            unsafe { vec.store_unchecked(fill, offset); }
+            vec.store(fill, offset);
         }
 
         fill
-- 
2.43.0


From bfc27130c2f3410551c3068ffed976059b010ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 04/19] fix: return the next full vector from an early end()

Asking for the partial vector with more than one vector left underflowed, and
merged the last elements with an out-of-range mask in release builds.
---
 src/iters.rs | 4 ++++
 src/zip.rs   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/iters.rs b/src/iters.rs
index da304c8..77176f4 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -526,6 +526,10 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
     #[inline(always)]
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
         if self.scalar_pos() < self.scalar_len() {
+            if self.scalar_len() - self.scalar_pos() > self.width() {
+                // There is more than one vector left, so the next one is full
+                return self.next().map(|v| (v, 0));
+            }
             let mut ret = self.default();
             let empty_amt = self.width() - (self.scalar_len() - self.scalar_pos());
             // Right-align the partial vector to ensure the load is vectorized
diff --git a/src/zip.rs b/src/zip.rs
index 960e2c4..c1178c3 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -274,6 +274,9 @@ macro_rules! impl_iter_zip {
 
             #[inline(always)]
             fn end(&mut self) -> Option<(Self::Vectors, usize)> {
+                if let Some(v) = self.next() {
+                    return Some((v, 0));
+                }
                 let pos = self.iters.0.scalar_pos();
                 self.iters.0.end().map(|(v, n)| unsafe {
                     ((v, $(self.iters.$n.end_unchecked(pos, n)),*), n)
-- 
2.43.0


From 159fbe2df3780c423fbed62b86313eae3d7e6d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:05 +0000
Subject: [PATCH 05/19] fix: keep consumed elements intact in simd_for_each

The elements before an uneven end were restored from the last vector mutated by
the same call, and overwritten with zeroes if there was none because the
iterator had been advanced before.
---
 src/iters.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 77176f4..a600e75 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -6,6 +6,7 @@
 // file, You can obtain one at http://mozilla.org/MPL/2.0/.
 
 use crate::vecs::{Packable, Packed};
+use crate::intrin::merge::Merge;
 use crate::core::slice::from_raw_parts;
 
 pub trait SIMDObject : Sized {
@@ -555,11 +556,8 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
 impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
     fn simd_for_each<F>(&mut self, mut func: F)
         where F : FnMut(&mut Self::Vector) -> () {
-        let mut lastvec = Self::Vector::default();
-
         while let Some(mut v) = self.next() {
             func(&mut v);
-            lastvec = v;
             let offset = self.scalar_pos() - self.width();
             unsafe { self.data.store_unchecked(v, offset); }
         }
@@ -568,10 +566,10 @@ impl<T> SIMDIteratorMut for SIMDIter<T> where T : SIMDArrayMut {
             func(&mut p);
             let width = self.width();
             if self.width() < self.scalar_len() {
-                // We stored a vector in this buffer; overwrite the unused elements
+                // Keep the elements before the ones we were asked to modify
                 unsafe {
-                    self.data.store_unchecked(p, offset - n);
-                    self.data.store_unchecked(lastvec, offset - width);
+                    let prev = self.data.load_unchecked(offset - n);
+                    self.data.store_unchecked(Merge::merge_partitioned(&prev, p, n), offset - n);
                 }
             } else {
                 // The buffer won't fit one vector; store elementwise
-- 
2.43.0


From 412d2d0230c590af11a86da68e690549d4bcec0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 06/19] fix: yield the last full vector of a strided iterator

When the elements of a lane filled its vectors exactly, next() withheld the last
one from anyone not calling end().
---
 src/stride.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stride.rs b/src/stride.rs
index 4a27b95..8fa67eb 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,7 +32,7 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos + self.stride * self.width() < self.iter.scalar_len() {
+        if self.pos - self.base + self.stride * self.width() <= self.iter.scalar_len() {
             let mut ret = <Self as SIMDObject>::Vector::default();
             for i in 0..self.width() {
                 ret = ret.replace(i, unsafe {
-- 
2.43.0


From baf33c83c1815762706a6c54b84b1e8e6f92a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 07/19] fix: refuse strided loads whose offset overflows

In release builds the overflowing index passed the bounds check, and elements
outside the underlying collection were read.
---
 src/stride.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stride.rs b/src/stride.rs
index 8fa67eb..856c610 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -293,7 +293,10 @@ impl<'a, A> SIMDObject for PackedStride<'a, A> where A : SIMDArray {
 impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn load(&self, offset: usize) -> Self::Vector {
-        assert!(self.base + self.stride * (offset + (self.width() - 1)) < self.iter.scalar_len());
+        let last = offset.checked_add(self.width() - 1)
+            .and_then(|o| o.checked_mul(self.stride))
+            .and_then(|o| o.checked_add(self.base));
+        assert!(last.map_or(false, |l| l < self.iter.scalar_len()));
         unsafe { self.load_unchecked(offset) }
     }
 
@@ -310,7 +313,8 @@ impl<'a, A> SIMDArray for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn load_scalar(&self, offset: usize) -> Self::Scalar {
-        self.iter.load_scalar(self.base + offset * self.stride)
+        let index = offset.checked_mul(self.stride).and_then(|o| o.checked_add(self.base));
+        self.iter.load_scalar(index.expect("offset out of range"))
     }
 
     #[inline(always)]
-- 
2.43.0


From d398663ea30d10deb85fde6469db7f61cdc942ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 08/19] fix: make len() count the vectors which are left

ExactSizeIterator::len must match the number of items next() returns, but it did
not change as the iterator advanced, and was rounded down too far for strides.
---
 src/iters.rs  | 2 +-
 src/stride.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index a600e75..fb80637 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -457,7 +457,7 @@ impl<A> SIMDObject for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::S
 impl<A> ExactSizeIterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Scalar : Packable {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.data.scalar_len() / self.width()
+        self.scalar_len().saturating_sub(self.position) / self.width()
     }
 }
 
diff --git a/src/stride.rs b/src/stride.rs
index 856c610..6f96b38 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -51,7 +51,7 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 impl<'a, A> ExactSizeIterator for PackedStride<'a, A> where A : SIMDArray {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.vector_len() / self.stride
+        self.scalar_len().saturating_sub(self.scalar_pos()) / self.width()
     }
 }
 
-- 
2.43.0


From a011539e26bf3d644f276a8f2b83d51b85688ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 09/19] fix: refuse to zip iterators which cannot be walked in
 lockstep

Only the number of full vectors was compared, so uneven collections of different
lengths, iterators at different positions and vectors of different widths were
accepted, and elements outside the shorter ones were read.
---
 src/zip.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/zip.rs b/src/zip.rs
index c1178c3..0749075 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -225,9 +225,13 @@ macro_rules! impl_iter_zip {
         impl<$($a),*> IntoSIMDZip for ($($a),*) where $($a : SIMDIterator + UnsafeIterator),* {
             #[inline(always)]
             fn zip(self) -> Zip<Self> {
-                if $(self.0.len() != self.$n.len())||* {
+                if $(self.0.scalar_len() != self.$n.scalar_len() ||
+                     self.0.scalar_pos() != self.$n.scalar_pos())||* {
                     panic!("You can only zip iterators of the same length.");
                 }
+                if $(self.0.width() != self.$n.width())||* {
+                    panic!("You can only zip iterators of the same vector width.");
+                }
                 Zip { iters: self }
             }
         }
-- 
2.43.0


From 748ff711e5e2cce3acfbda7724447b255c9041ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 10/19] fix: report the length of mapped and zipped iterators
 in scalars

scalar_len() was the number of vectors, so vector_len() and finalize() were wrong
for SIMDMap, Zip and SIMDZipMap.
---
 src/iters.rs | 12 +++++++++++-
 src/zip.rs   | 10 ++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/iters.rs b/src/iters.rs
index fb80637..21b0018 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -645,7 +645,12 @@ impl<A, B, I, F> SIMDSized for SIMDMap<I, F>
     where I : SIMDIterable, F : FnMut(I::Vector) -> A, A : Packed<Scalar = B>, B : Packable {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.iter.scalar_len()
+    }
+
+    #[inline(always)]
+    fn vector_len(&self) -> usize {
+        self.iter.vector_len()
     }
 }
 
@@ -656,6 +661,11 @@ impl<A, B, I, F> SIMDIterable for SIMDMap<I, F>
         self.iter.scalar_pos()
     }
 
+    #[inline(always)]
+    fn vector_pos(&self) -> usize {
+        self.iter.vector_pos()
+    }
+
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
         self.iter.advance(amount);
diff --git a/src/zip.rs b/src/zip.rs
index 0749075..b2aba81 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -296,6 +296,11 @@ macro_rules! impl_iter_zip {
                 self.iters.0.scalar_pos()
             }
 
+            #[inline(always)]
+            fn scalar_len(&self) -> usize {
+                self.iters.0.scalar_len()
+            }
+
             #[inline(always)]
             fn advance(&mut self, amount: usize) {
                 self.iters.0.advance(amount);
@@ -355,6 +360,11 @@ impl<I, F, A> SIMDIterable for SIMDZipMap<I, F>
         self.iter.scalar_pos()
     }
 
+    #[inline(always)]
+    fn vector_pos(&self) -> usize {
+        self.iter.vector_pos()
+    }
+
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
         self.iter.advance(amount)
-- 
2.43.0


From 40f43f74cd197fc1ed185bd2951b51ba918e6958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:57 +0000
Subject: [PATCH 11/19] fix: deliver every item of an iterator packed by
 SIMDAdapter

The position was compared to the number of items left, so iteration stopped
halfway; the uneven end was reversed and claimed one filled lane too many; and
advancing did not skip any items.
---
 src/iters.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 21b0018..8d7b043 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -240,7 +240,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.iter.len() >= self.width() {
             // Our iterator has at least one vector's worth of elements, so load
             // them all into our vector
             for offset in 0..self.width() {
@@ -248,8 +248,7 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
                     self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
             }
-            let width = self.width(); // Appease borrow checker
-            self.advance(width);
+            self.position += self.width();
             Some(self.scratch)
         } else {
             None
@@ -259,19 +258,22 @@ impl<I, V> Iterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::
 
 impl<I, V> SIMDIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     fn end(&mut self) -> Option<(Self::Vector, usize)> {
-        if self.position < self.scalar_len() {
-            // This is the last vector we can load, so we should load it
-            // backwards and use the default vector to overwrite blank spots
+        let amt = self.iter.len();
+        if amt >= self.width() {
+            // There is a whole vector left
+            self.next().map(|v| (v, 0))
+        } else if amt > 0 {
+            // This is the last vector we can load, so right-align it and use
+            // the default vector to fill blank spots
             self.scratch = self.default;
-            let mut offset = self.width() - 1;
-            while let Some(item) = self.iter.next() {
+            let empty_amt = self.width() - amt;
+            for offset in empty_amt..self.width() {
                 unsafe {
-                    self.scratch = self.scratch.replace_unchecked(offset, item);
+                    self.scratch = self.scratch.replace_unchecked(offset, self.iter.next().unwrap());
                 }
-                offset -= 1;
             }
-            self.finalize();
-            Some((self.scratch, offset))
+            self.position += amt;
+            Some((self.scratch, empty_amt))
         } else {
             None
         }
@@ -288,7 +290,7 @@ impl<I, V> ExactSizeIterator for SIMDAdapter<I, V> where I : ExactSizeIterator<I
 impl<I, V> SIMDSized for SIMDAdapter<I, V> where I : ExactSizeIterator<Item = V::Scalar>, V : Packed {
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.len()
+        self.position + self.iter.len()
     }
 }
 
@@ -300,7 +302,9 @@ impl<I, V> SIMDIterable for SIMDAdapter<I, V> where I : ExactSizeIterator<Item =
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        for _ in self.iter.by_ref().take(amount) {
+            self.position += 1;
+        }
     }
 
     #[inline(always)]
-- 
2.43.0


From b31aa5d1948439d37397cce96e24b5c23e1ac821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 12/19] fix: deliver every pair from stride_zip at the end of
 the source

Unless the length was a multiple of two vectors, the last pairs were misaligned,
padded in the middle, miscounted or dropped, and positions ignored the start.
A vector whose partner could not be read was lost.
---
 src/stride_zip.rs | 78 +++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index eed06d3..e99dc0a 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -26,6 +26,14 @@ impl<T> IntoStrideZip for T where T : SIMDIterator, T::Vector : Destride {
     }
 }
 
+impl<T> StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
+    /// Return the number of scalars which were read, but not returned yet.
+    #[inline(always)]
+    fn ahead(&self) -> usize {
+        self.peek.map_or(0, |_| T::Vector::WIDTH)
+    }
+}
+
 impl<T> SIMDZippedObject for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     type Scalars = (T::Scalar, T::Scalar);
     type Vectors = (T::Vector, T::Vector);
@@ -46,34 +54,31 @@ impl<T> SIMDZippedObject for StrideZip<T> where T : SIMDIterator, T::Vector : De
 impl<T> ExactSizeIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     #[inline(always)]
     fn len(&self) -> usize {
-        self.iter.len() / 2
+        (self.iter.len() + self.ahead() / T::Vector::WIDTH) / 2
     }
 }
 
 impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     #[inline(always)]
     fn scalar_pos(&self) -> usize {
-        (self.iter.scalar_pos() - self.base) / 2
-    }
-
-    #[inline(always)]
-    fn vector_pos(&self) -> usize {
-        (self.iter.vector_pos() - (self.base / self.width())) / 2
+        (self.iter.scalar_pos() - self.base - self.ahead()) / 2
     }
 
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        self.iter.scalar_len() / 2
+        (self.iter.scalar_len() - self.base) / 2
     }
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.iter.advance(2 * amount);
+        let ahead = self.ahead();
+        self.peek = None;
+        self.iter.advance((2 * amount).saturating_sub(ahead));
     }
 
     #[inline(always)]
     fn default(&self) -> Self::Vectors {
-        (T::Vector::default(), T::Vector::default())
+        (self.iter.default(), self.iter.default())
     }
 }
 
@@ -81,32 +86,45 @@ impl<T> Iterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     type Item = <Self as SIMDZippedObject>::Vectors;
     
     fn next(&mut self) -> Option<Self::Item> {
-        let first = self.iter.next()?;
-        let second = self.iter.next();
-        if let Some(second) = second {
-            Some(first.destride_two(second))
-        } else {
-            self.peek = Some(first);
-            None
+        if self.peek.is_none() {
+            if self.iter.len() < 2 {
+                return None;
+            }
+            self.peek = self.iter.next();
         }
+        let second = self.iter.next()?;
+        self.peek.take().map(|first| first.destride_two(second))
     }
 }
 
 impl<T> SIMDZippedIterator for StrideZip<T> where T : SIMDIterator, T::Vector : Destride {
     fn end(&mut self) -> Option<(Self::Vectors, usize)> {
-        let first = self.iter.next();
-        let (end, n) = self.iter.end().unwrap_or((self.iter.default(), 0));
-        if let Some(first) = first {
-            Some((first.destride_two(end), (self.width() + n) / 2))
-        } else {
-            if let Some(v) = self.peek {
-                self.peek = None;
-                Some((v.destride_two(end), (self.width() + n) / 2))
-            } else if n > 0 {
-                Some((end.destride_two(self.iter.default()), n / 2))
-            } else {
-                None
-            }
+        if let Some(v) = self.next() {
+            return Some((v, 0));
+        }
+
+        if self.peek.is_none() {
+            self.peek = self.iter.next();
+        }
+        let width = self.width();
+        let (end, n) = self.iter.end().unwrap_or((self.iter.default(), width));
+        let first_amt = self.ahead();
+        let first = self.peek.take();
+        let amt = (first_amt + width - n) / 2;
+        if amt == 0 {
+            return None;
+        }
+
+        // Right-align the remaining pairs; an element without a partner is left
+        let get = |i| match first {
+            Some(v) if i < first_amt => v.extract(i),
+            _ => end.extract(n + i - first_amt)
+        };
+        let (mut a, mut b) = self.default();
+        for i in 0..amt {
+            a = a.replace(width - amt + i, get(2 * i));
+            b = b.replace(width - amt + i, get(2 * i + 1));
         }
+        Some(((a, b), width - amt))
     }
 }
-- 
2.43.0


From 13aa7c21cf35f9c1d520d2559b7875e53f82425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 13/19] fix: write each trace message in one piece

The message and its newline were written separately, so lines of different
threads ran into each other.
---
 src/debug.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debug.rs b/src/debug.rs
index b7e3a2a..c53f3ab 100644
--- a/src/debug.rs
+++ b/src/debug.rs
@@ -24,7 +24,8 @@ macro_rules! debug_append_log {
             .create(true)
             .append(true)
             .open(file_name).and_then(|mut file| {
-                writeln!(file, "{}", $str)
+                // One write per line, so lines of other threads can't end up in it
+                file.write_all(format!("{}\n", $str).as_bytes())
         }).ok(); // `ok` suppresses warning about unused results, about which we don't care.
     }
 }
-- 
2.43.0


From 92b6d947a76473ae083bb3b33d58820661e11cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 14/19] fix: don't panic in traced operations if the trace
 can't be printed

println! panics if standard output is closed, and the thread-local guard can't
be accessed while its thread is exiting.
---
 src/debug.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/debug.rs b/src/debug.rs
index c53f3ab..8f5acdc 100644
--- a/src/debug.rs
+++ b/src/debug.rs
@@ -37,7 +37,8 @@ macro_rules! debug_output_once {
     ($str:expr) => {
         let output = $str;
 
-        crate::debug::OUTPUT_GUARD.with(|f| {
+        // Never fail on behalf of a diagnostic: stay silent if this thread is exiting
+        crate::debug::OUTPUT_GUARD.try_with(|f| {
             let mut output_guard = f.borrow_mut();
 
             if output_guard.contains(&output) {
@@ -46,10 +47,10 @@ macro_rules! debug_output_once {
 
             // Also print to file (if enabled).
             debug_append_log!(output);
-            println!("{}", output);
+            writeln!(std::io::stdout(), "{}", output).ok();
 
             output_guard.insert(output);
-        });
+        }).ok();
     }
 }
 
-- 
2.43.0


From 7d045351838ed771ece86bc97cf8279d13361331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 15/19] fix: don't wrap around when an iterator is advanced
 past its end

---
 src/iters.rs      | 6 +++---
 src/stride.rs     | 4 ++--
 src/stride_zip.rs | 4 ++--
 src/zip.rs        | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 8d7b043..637930a 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -44,7 +44,7 @@ pub trait SIMDIterable : SIMDObject + SIMDSized + ExactSizeIterator<Item = <Self
     /// Advance the iterable such that it procudes no more items.
     #[inline(always)]
     fn finalize(&mut self) {
-        let end = self.scalar_len() - self.scalar_pos();
+        let end = self.scalar_len().saturating_sub(self.scalar_pos());
         self.advance(end);
     }
 
@@ -470,7 +470,7 @@ impl<A> Iterator for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A::Sca
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.position + self.width() <= self.scalar_len() {
+        if self.scalar_len().saturating_sub(self.position) >= self.width() {
             let ret = unsafe { self.load_unchecked(self.position) };
             let width = self.width(); // Appease borrow checker
             self.advance(width);
@@ -518,7 +518,7 @@ impl<A> SIMDIterable for SIMDIter<A> where A : SIMDArray, A::Vector : Packed, A:
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.position += amount
+        self.position = self.position.saturating_add(amount);
     }
 
     #[inline(always)]
diff --git a/src/stride.rs b/src/stride.rs
index 6f96b38..0ff02fb 100644
--- a/src/stride.rs
+++ b/src/stride.rs
@@ -32,7 +32,7 @@ impl<'a, A> Iterator for PackedStride<'a, A> where A : 'a + SIMDArray {
 
     #[inline(always)]
     fn next(&mut self) -> Option<Self::Item> {
-        if self.pos - self.base + self.stride * self.width() <= self.iter.scalar_len() {
+        if self.iter.scalar_len().saturating_sub(self.pos - self.base) >= self.stride * self.width() {
             let mut ret = <Self as SIMDObject>::Vector::default();
             for i in 0..self.width() {
                 ret = ret.replace(i, unsafe {
@@ -343,7 +343,7 @@ impl<'a, A> SIMDIterable for PackedStride<'a, A> where A : SIMDArray {
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
-        self.pos += amount * self.stride;
+        self.pos = self.pos.saturating_add(amount.saturating_mul(self.stride));
     }
 
     #[inline(always)]
diff --git a/src/stride_zip.rs b/src/stride_zip.rs
index e99dc0a..6aabbdf 100644
--- a/src/stride_zip.rs
+++ b/src/stride_zip.rs
@@ -66,14 +66,14 @@ impl<T> SIMDZippedIterable for StrideZip<T> where T : SIMDIterator, T::Vector :
 
     #[inline(always)]
     fn scalar_len(&self) -> usize {
-        (self.iter.scalar_len() - self.base) / 2
+        self.iter.scalar_len().saturating_sub(self.base) / 2
     }
 
     #[inline(always)]
     fn advance(&mut self, amount: usize) {
         let ahead = self.ahead();
         self.peek = None;
-        self.iter.advance((2 * amount).saturating_sub(ahead));
+        self.iter.advance(amount.saturating_mul(2).saturating_sub(ahead));
     }
 
     #[inline(always)]
diff --git a/src/zip.rs b/src/zip.rs
index b2aba81..39d9a6b 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -97,7 +97,7 @@ pub trait SIMDZippedIterable : SIMDZippedObject + ExactSizeIterator<Item = <Self
     /// Advance the iterable such that it procudes no more items.
     #[inline(always)]
     fn finalize(&mut self) {
-        let end = self.scalar_len() - self.scalar_pos();
+        let end = self.scalar_len().saturating_sub(self.scalar_pos());
         self.advance(end);
     }
 
-- 
2.43.0


From 1412e125ce1bb0c6cef3865897541e43f6c0cbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:30 +0000
Subject: [PATCH 16/19] fix: check the stores of scalar_collect and
 scalar_collect_all

An iterator which delivers more vectors than its len() promised made them
write past the end of the buffer.
---
 src/iters.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 637930a..155a5f9 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -718,14 +718,15 @@ impl<'a, T, I> IntoScalar<T> for I
     #[inline(always)]
     #[cfg(feature = "std")]
     fn scalar_collect(&mut self) -> Vec<Self::Scalar> {
-        let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        let capacity = (self.len() + 1) * self.width();
+        let mut ret = Vec::with_capacity(capacity);
         let mut offset = 0;
         let mut lastvec = Self::Vector::default();
 
         unsafe {
-            ret.set_len((self.len() + 1) * self.width());
+            ret.set_len(capacity);
             while let Some(vec) = self.next() {
-                vec.store_unchecked(&mut ret, offset);
+                vec.store(&mut ret, offset);
                 offset += self.width();
                 lastvec = vec;
             }
@@ -733,17 +734,17 @@ impl<'a, T, I> IntoScalar<T> for I
             if let Some((p, n)) = self.end() {
                 if offset > 0 {
                     // We stored a vector in this buffer; overwrite the unused elements
-                    p.store_unchecked(&mut ret, offset - n);
-                    lastvec.store_unchecked(&mut ret, offset - self.width());
+                    p.store(&mut ret, offset - n);
+                    lastvec.store(&mut ret, offset - self.width());
                 } else {
                     // The buffer won't fit one vector; store elementwise
                     for i in 0..(self.width() - n) {
-                        ret[offset + i] = p.extract_unchecked(i + n);
+                        ret[offset + i] = p.extract(i + n);
                     }
                 }
-                ret.set_len(self.width() + offset - n);
+                ret.truncate(self.width() + offset - n);
             } else {
-                ret.set_len(offset);
+                ret.truncate(offset);
             }
         }
         ret
@@ -768,9 +769,7 @@ impl<'a, T, I> IntoScalar<T> for I
             } else {
                 // The buffer won't fit one vector; store elementwise
                 for i in 0..(self.width() - n) {
-                    unsafe {
-                        fill[offset + i] = p.extract_unchecked(i + n);
-                    }
+                    fill[offset + i] = p.extract(i + n);
                 }
             }
         }
@@ -781,22 +780,23 @@ impl<'a, T, I> IntoScalar<T> for I
     #[inline(always)]
     #[cfg(feature = "std")]
     fn scalar_collect_all(&mut self) -> Vec<Self::Scalar> {
-        let mut ret = Vec::with_capacity((self.len() + 1) * self.width());
+        let capacity = (self.len() + 1) * self.width();
+        let mut ret = Vec::with_capacity(capacity);
 
         let mut offset = 0;
 
         unsafe {
-            ret.set_len((self.len() + 1) * self.width());
+            ret.set_len(capacity);
             while let Some(vec) = self.next() {
-                vec.store_unchecked(&mut ret, offset);
+                vec.store(&mut ret, offset);
                 offset += self.width();
             }
 
             if let Some((vec, _)) = self.end() {
-                vec.store_unchecked(&mut ret, offset);
+                vec.store(&mut ret, offset);
                 offset += self.width();
             }
-            ret.set_len(offset);
+            ret.truncate(offset);
         }
         ret
     }
-- 
2.43.0


From ae61025d3f50bee7422dcfc61904cc9a969e6d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 17/19] fix: right-align a short collection which was advanced

---
 src/iters.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iters.rs b/src/iters.rs
index 155a5f9..8bfde23 100644
--- a/src/iters.rs
+++ b/src/iters.rs
@@ -544,7 +544,7 @@ impl<T, S, V> SIMDIterator for T where T : SIMDIterable + SIMDArray<Scalar = S,
             } else {
                 for i in self.scalar_pos()..self.scalar_len() {
                     unsafe {
-                        ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                        ret = ret.replace_unchecked(i + self.width() - self.scalar_len(), self.load_scalar_unchecked(i));
                     }
                 }
             }
@@ -609,7 +609,7 @@ impl<T, S, V> UnsafeIterator for T where T : SIMDIterable + SIMDArray<Scalar = S
             ret = self.default().merge_partitioned(ret, empty_amt);
         } else {
             for i in offset..self.scalar_len() {
-                ret = ret.replace_unchecked(i + empty_amt, self.load_scalar_unchecked(i));
+                ret = ret.replace_unchecked(i + self.width() - self.scalar_len(), self.load_scalar_unchecked(i));
             }
         }
         ret
-- 
2.43.0


From 03b28b43e0b238b1413d5b4a4dca74e9d3d0efa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:35 +0000
Subject: [PATCH 18/19] fix: don't lose vectors of zipped iterators if a load
 fails

---
 src/zip.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/zip.rs b/src/zip.rs
index 39d9a6b..48078d1 100644
--- a/src/zip.rs
+++ b/src/zip.rs
@@ -250,10 +250,17 @@ macro_rules! impl_iter_zip {
 
             #[inline(always)]
             fn next(&mut self) -> Option<<Self as SIMDZippedObject>::Vectors> {
+                if self.iters.0.len() == 0 {
+                    return None;
+                }
+                // Advance once all vectors are loaded, so none are lost if a load fails
                 let pos = self.iters.0.scalar_pos();
-                self.iters.0.next().map(|v| unsafe {
-                    (v, $(self.iters.$n.next_unchecked(pos)),*)
-                })
+                let ret = unsafe {
+                    (self.iters.0.next_unchecked(pos), $(self.iters.$n.next_unchecked(pos)),*)
+                };
+                let width = self.width(); // Appease borrow checker
+                self.advance(width);
+                Some(ret)
             }
         }
 
@@ -282,9 +289,15 @@ macro_rules! impl_iter_zip {
                     return Some((v, 0));
                 }
                 let pos = self.iters.0.scalar_pos();
-                self.iters.0.end().map(|(v, n)| unsafe {
-                    ((v, $(self.iters.$n.end_unchecked(pos, n)),*), n)
-                })
+                if pos >= self.scalar_len() {
+                    return None;
+                }
+                let n = self.width() - (self.scalar_len() - pos);
+                let ret = unsafe {
+                    (self.iters.0.end_unchecked(pos, n), $(self.iters.$n.end_unchecked(pos, n)),*)
+                };
+                self.finalize();
+                Some((ret, n))
             }
         }
 
-- 
2.43.0


From 3aeb831f6c7a5770c0f69070049a0f30cf42f3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:43 +0000
Subject: [PATCH 19/19] fix: destride 8-bit vectors correctly with AVX2

---
 src/arch/x86/intrin/destride.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arch/x86/intrin/destride.rs b/src/arch/x86/intrin/destride.rs
index 8715278..0bfdc59 100644
--- a/src/arch/x86/intrin/destride.rs
+++ b/src/arch/x86/intrin/destride.rs
@@ -48,7 +48,7 @@ impl Destride for u8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_u8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_u8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_u8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_u8s();
             (aa.merge_halves(bb), c)
         }
     }
@@ -108,7 +108,7 @@ impl Destride for i8x32 {
             let aa = _mm256_permute4x64_epi64(a.be_i64s(), 0xD8).be_i8s();
             let bb = _mm256_permute4x64_epi64(b.be_i64s(), 0xD8).be_i8s();
             // Backwards merge of aa and bb (keeps elements at the same indices)
-            let c = _mm256_permute4x64_epi64(aa.merge_halves(bb).be_i64s(), 0x4E).be_i8s();
+            let c = _mm256_permute4x64_epi64(bb.merge_halves(aa).be_i64s(), 0x4E).be_i8s();
             (aa.merge_halves(bb), c)
         }
     }
-- 
2.43.0

