From 73d23a014c5c89fe40c40e3fb2619ff66e75b74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 01/25] fix: ceil_div_nbits no longer wraps for sizes near
 u64::MAX

Adding nbits - 1 before dividing overflowed (a panic in debug builds, a
tiny block count in release builds), so an absurd size was accepted.
---
 src/storage.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index d5f9cd7..2650369 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -57,7 +57,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// size, which is why it takes `u64` and returns `usize`.
     #[inline]
     fn ceil_div_nbits(index: u64) -> usize {
-        Self::div_nbits(index + (Self::nbits() as u64 - 1))
+        Self::div_nbits(index) + (Self::mod_nbits(index) != 0) as usize
     }
 
     /// Returns `index / Self::nbits()` rounded up, computed by shifting.
@@ -69,7 +69,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// be small enough.
     #[inline]
     fn checked_ceil_div_nbits(index: u64) -> Option<usize> {
-        Self::checked_div_nbits(index + (Self::nbits() as u64 - 1))
+        let extra = (Self::mod_nbits(index) != 0) as usize;
+        Self::checked_div_nbits(index).and_then(|q| q.checked_add(extra))
     }
 
     /// Returns `index % Self::nbits()`, computed by masking.
-- 
2.43.0


From fb45260992a95b364b91a0db4956def97c5a7c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 02/25] fix: ceil_div no longer overflows for large dividends

---
 src/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index 2650369..cddcdf8 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -224,7 +224,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Returns the smallest number `n` such that `n * divisor >= self`.
     #[inline]
     fn ceil_div(self, divisor: Self) -> Self {
-        (self + divisor - Self::one()) / divisor
+        let quotient = self / divisor;
+        if self % divisor == Self::zero() { quotient } else { quotient + Self::one() }
     }
 
     // I/O methods
-- 
2.43.0


From 211e03cddc0e95e96bfc7eee723dc14a2eb7050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 03/25] fix: bounds checks on bit spans no longer wrap in
 release builds

start + count could overflow and pass the assertion.
---
 src/bit_vec/prim.rs         | 6 ++++--
 src/bit_vec/traits.rs       | 6 ++++--
 src/internal/vector_base.rs | 8 ++++++--
 src/storage.rs              | 6 +++---
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/bit_vec/prim.rs b/src/bit_vec/prim.rs
index 26e7d1d..322326e 100644
--- a/src/bit_vec/prim.rs
+++ b/src/bit_vec/prim.rs
@@ -33,7 +33,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn get_bits(&self, start: u64, count: usize) -> Self {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(start <= Self::nbits() as u64
+                            && count as u64 <= Self::nbits() as u64 - start,
                         "prim::get_bits: out of bounds");
                 BlockType::get_bits(*self, start as usize, count)
             }
@@ -55,7 +56,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(start <= Self::nbits() as u64
+                            && count as u64 <= Self::nbits() as u64 - start,
                         "prim::set_bits: out of bounds");
                 *self = self.with_bits(start as usize, count, value);
             }
diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index cf62776..d8bdefc 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -75,7 +75,8 @@ pub trait BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn get_bits(&self, start: u64, count: usize) -> Self::Block {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVec::get_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
         let address = Address::new::<Self::Block>(start);
@@ -157,7 +158,8 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-        let limit = start + count as u64;
+        let limit = start.checked_add(count as u64)
+                         .expect("BitVecMut::set_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
         let address = Address::new::<Self::Block>(start);
diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index f6a121d..9229054 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -118,7 +118,9 @@ impl<Block: BlockType> VectorBase<Block> {
     pub fn get_bits(&self, element_bits: usize, index: u64, count: usize)
                     -> Block {
         // If element_bits is legit then the RHS of the comparison can't overflow.
-        assert!(index + count as u64 <= self.len * element_bits as u64,
+        let limit = index.checked_add(count as u64)
+                         .expect("VectorBase::get_bits: index overflow");
+        assert!(limit <= self.len * element_bits as u64,
                 "VectorBase::get_bits: out of bounds");
         self.vec.get_bits(index, count)
     }
@@ -127,7 +129,9 @@ impl<Block: BlockType> VectorBase<Block> {
     pub fn set_bits(&mut self, element_bits: usize, index: u64,
                     count: usize, value: Block) {
         // If element_bits is legit then the RHS of the comparison can't overflow.
-        assert!(index + count as u64 <= self.len * element_bits as u64,
+        let limit = index.checked_add(count as u64)
+                         .expect("VectorBase::set_bits: index overflow");
+        assert!(limit <= self.len * element_bits as u64,
                 "VectorBase::set_bits: out of bounds");
         self.vec.set_bits(index, count, value);
     }
diff --git a/src/storage.rs b/src/storage.rs
index cddcdf8..7cfdbfe 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -179,8 +179,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn get_bits(self, start: usize, len: usize) -> Self {
-        assert!(start + len <= Self::nbits(),
-                "Block::get_bits: out of bounds");;
+        assert!(start <= Self::nbits() && len <= Self::nbits() - start,
+                "Block::get_bits: out of bounds");
 
         if len == 0 { return Self::zero(); }
 
@@ -194,7 +194,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn with_bits(self, start: usize, len: usize, value: Self) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(start <= Self::nbits() && len <= Self::nbits() - start,
                 "Block::with_bits: out of bounds");
 
         if len == 0 { return self; }
-- 
2.43.0


From cfb5539397762d46368c9fed9350900d3fa52fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 04/25] fix: default get_bits/set_bits accept empty spans and
 reject over-long ones

An empty span at the (block-aligned) end of a vector panicked, and a span
longer than a block was silently garbled.
---
 src/bit_vec/traits.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index d8bdefc..6ab156e 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -79,6 +79,10 @@ pub trait BitVec {
                          .expect("BitVec::get_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
+        assert!(count <= Self::Block::nbits(), "BitVec::get_bits: span exceeds block");
+
+        if count == 0 { return Self::Block::zero(); }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
@@ -162,6 +166,10 @@ pub trait BitVecMut: BitVec {
                          .expect("BitVecMut::set_bits: index overflow");
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
+        assert!(count <= Self::Block::nbits(), "BitVecMut::set_bits: span exceeds block");
+
+        if count == 0 { return; }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
-- 
2.43.0


From 2b810288a7c8888857d3e3c8365918fcd4263b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 05/25] fix: default set_block rejects block positions past the
 end

mul_nbits(position) wraps for huge positions, so block 0 was overwritten.
---
 src/bit_vec/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 6ab156e..8c6ed99 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -141,6 +141,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
+        assert!(position < self.block_len(),
+                "BitVecMut::set_block: out of bounds");
+
         let limit = if position + 1 == self.block_len() {
             Self::Block::last_block_bits(self.bit_len())
         } else {
-- 
2.43.0


From 043254c8412e9df2c37e8e69425770e9ce679a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 06/25] fix: block access to a bit slice handles a partial last
 block

get_block/set_block on the last block of a slice whose length is not a
multiple of the block size panicked; huge positions wrapped to block 0.
---
 src/bit_vec/bit_slice.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5f84118..8f39206 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -1,3 +1,4 @@
+use std::cmp;
 use std::ops::{Range, RangeTo, RangeFrom, RangeFull};
 
 use bit_vec::traits::*;
@@ -108,7 +109,10 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(), "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(Self::Block::nbits() as u64, self.len - start);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -134,7 +138,10 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(), "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(Self::Block::nbits() as u64, self.len - start);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -153,8 +160,10 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        self.set_bits(Self::Block::mul_nbits(position),
-                      Self::Block::nbits(), value);
+        assert!(position < self.block_len(), "BitSliceMut::set_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = cmp::min(Self::Block::nbits() as u64, self.len - start);
+        self.set_bits(start, count as usize, value);
     }
 }
 
-- 
2.43.0


From deee46c7acde18ffced7ae032f19b9be2679fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 07/25] fix: slicing rejects ranges that start past the end of
 the base

An empty slice positioned outside its base panicked on empty reads and
could overflow when sliced again.
---
 src/bit_vec/bit_slice.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 8f39206..f033882 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -25,7 +25,8 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitSlice<'a, Base> {
     /// Slices base to the specified range.
     pub fn new<R: IntoRange<u64>>(base: &'a Base, range: R) -> Self {
         let range = range.into_range(0, base.bit_len());
-        assert!(range.end <= base.bit_len(), "BitSlice::new: out of bounds");
+        assert!(range.start <= base.bit_len() && range.end <= base.bit_len(),
+                "BitSlice::new: out of bounds");
         BitSlice {
             data: base,
             start: range.start,
@@ -39,7 +40,8 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitSlice<'a, Base> {
     /// indirection.
     pub fn slice<R: IntoRange<u64>>(&self, range: R) -> Self {
         let range = range.into_range(0, self.len);
-        assert!(range.end <= self.len, "BitSlice::slice: out of bounds");
+        assert!(range.start <= self.len && range.end <= self.len,
+                "BitSlice::slice: out of bounds");
         BitSlice {
             data: self.data,
             start: self.start + range.start,
@@ -52,7 +54,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitSliceMut<'a, Base> {
     /// Slices base to the specified range.
     pub fn new<R: IntoRange<u64>>(base: &'a mut Base, range: R) -> Self {
         let range = range.into_range(0, base.bit_len());
-        assert!(range.end <= base.bit_len(), "BitSlice::new: out of bounds");
+        assert!(range.start <= base.bit_len() && range.end <= base.bit_len(),
+                "BitSlice::new: out of bounds");
         BitSliceMut {
             data: base,
             start: range.start,
@@ -67,7 +70,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitSliceMut<'a, Base> {
     pub fn slice_mut<R: IntoRange<u64>>(&mut self, range: R)
                                         -> BitSliceMut<Base> {
         let range = range.into_range(0, self.len);
-        assert!(range.end <= self.len, "BitSlice::slice: out of bounds");
+        assert!(range.start <= self.len && range.end <= self.len,
+                "BitSlice::slice: out of bounds");
         BitSliceMut {
             data: self.data,
             start: self.start + range.start,
@@ -78,7 +82,8 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitSliceMut<'a, Base> {
     /// Slices this slice into an immutable subslice.
     pub fn slice<R: IntoRange<u64>>(&self, range: R) -> BitSlice<Base> {
         let range = range.into_range(0, self.len);
-        assert!(range.end <= self.len, "BitSlice::slice: out of bounds");
+        assert!(range.start <= self.len && range.end <= self.len,
+                "BitSlice::slice: out of bounds");
         BitSlice {
             data: self.data,
             start: self.start + range.start,
-- 
2.43.0


From a21b21b1dee2824005dea669d04fbfbe9144c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 08/25] fix: reserve makes room for the requested elements

The number of missing blocks was computed relative to the capacity, but
Vec::reserve counts from the length, so too little could be reserved.
---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 9229054..90e71e2 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -288,7 +288,7 @@ impl<Block: BlockType> VectorBase<Block> {
                 .and_then(|e| e.checked_mul(element_bits as u64))
                 .and_then(Block::checked_ceil_div_nbits)
                 .expect("VectorBase::reserve_(exact): overflow")
-                .saturating_sub(self.vec.capacity())
+                .saturating_sub(self.vec.len())
     }
 
     #[inline]
-- 
2.43.0


From e601afc95fbfc52b7c4b4300604207ab88e2f055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 09/25] fix: skipping past the end leaves an iterator exhausted

nth moved the start beyond the limit, so len() underflowed.
---
 src/internal/vector_base.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 90e71e2..7d4f1fe 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -1,5 +1,7 @@
 #![allow(dead_code)]
 
+use std::cmp;
+
 #[cfg(target_pointer_width = "32")]
 use num_traits::ToPrimitive;
 
@@ -394,7 +396,7 @@ impl<'a, Block: BlockType> Iterator for Iter<'a, Block> {
 
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
-        self.start = self.start.checked_add(n as u64).unwrap_or(self.limit);
+        self.start = cmp::min(self.start.saturating_add(n as u64), self.limit);
         self.next()
     }
 }
-- 
2.43.0


From 3dfb5dd5fead10bdca079925c53beba04d118d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 10/25] fix: IntVector fills reject values that exceed the
 element size

with_fill and resize silently truncated the value; push and set reject it.
---
 src/int_vec/int_vector.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/int_vec/int_vector.rs b/src/int_vec/int_vector.rs
index 998aec3..42e7664 100644
--- a/src/int_vec/int_vector.rs
+++ b/src/int_vec/int_vector.rs
@@ -92,6 +92,8 @@ impl<Block: BlockType> IntVector<Block> {
 
     /// Creates a new integer vector containing `len` copies of `value`.
     pub fn with_fill(element_bits: usize, len: u64, value: Block) -> Self {
+        Self::check_element_bits(element_bits);
+        Self::check_value_random(element_bits, value);
         Self::create(element_bits,
                      VectorBase::with_fill(element_bits, len, value))
     }
@@ -184,6 +186,7 @@ impl<Block: BlockType> IntVector<Block> {
 
     /// Resizes to the given number of elements, filling if necessary.
     pub fn resize(&mut self, n_elements: u64, fill: Block) {
+        self.check_value(fill);
         self.base.resize(self.element_bits, n_elements, fill);
     }
 
-- 
2.43.0


From 3b2a6961702f193934ca0146b0f464726d5c1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 11/25] fix: rank queries past the end panic in every build
 mode

---
 src/broadword.rs  | 2 +-
 src/rank/prim.rs  | 3 ++-
 src/rank/rank9.rs | 3 +++
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 00b56f7..6855660 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -29,7 +29,7 @@ pub struct Broadword(pub u64);
 
 impl BitRankSupport for Broadword {
     fn rank1(&self, position: u64) -> u64 {
-        debug_assert!(position < 64);
+        assert!(position < 64, "Broadword::rank1: out of bounds");
         count_ones(self.0 & u64::low_mask(position as usize + 1)) as u64
     }
 }
diff --git a/src/rank/prim.rs b/src/rank/prim.rs
index 7d10a78..1351f85 100644
--- a/src/rank/prim.rs
+++ b/src/rank/prim.rs
@@ -19,7 +19,8 @@ macro_rules! impl_rank_support_prim {
 
         impl BitRankSupport for $t {
             fn rank1(&self, position: u64) -> u64 {
-                debug_assert!(position < Self::nbits() as u64);
+                assert!(position < Self::nbits() as u64,
+                        "prim::rank1: out of bounds");
 
                 let mask = Self::low_mask((position + 1) as usize);
                 (*self & mask).count_ones() as u64
diff --git a/src/rank/rank9.rs b/src/rank/rank9.rs
index f30d225..b6398c4 100644
--- a/src/rank/rank9.rs
+++ b/src/rank/rank9.rs
@@ -131,6 +131,9 @@ impl<Store: BitVec<Block = u64>> Rank9<Store> {
 
 impl<Store: BitVec<Block = u64>> BitRankSupport for Rank9<Store> {
     fn rank1(&self, position: u64) -> u64 {
+        assert!(position < self.bit_len(),
+                "Rank9::rank1: out of bounds");
+
         let bb_index = (position / 512).to_usize()
                                        .expect("Rank9::rank1: index overflow");
         let word_index = (position / 64).to_usize()
-- 
2.43.0


From 45f50eb4e24c2b18406941f0dd64527164461478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 12/25] fix: JacobsonRank can be built over vectors of zero or
 one bits

Block sizes of zero led to a division by zero.
---
 src/rank/jacobson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index cd525f6..1b6559d 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -1,3 +1,5 @@
+use std::cmp;
+
 use num_traits::PrimInt;
 
 use bit_vec::BitVec;
@@ -26,12 +28,12 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let lg2_n = lg_n * lg_n;
 
         let small_block_size  = Store::Block::nbits();
-        let small_per_large   = lg2_n.ceil_div(small_block_size);
+        let small_per_large   = cmp::max(1, lg2_n.ceil_div(small_block_size));
         let large_block_size  = small_block_size * small_per_large;
         let large_block_count = n / large_block_size as u64 + 1;
         let small_block_count = n / small_block_size as u64 + 1;
 
-        let large_meta_size   = (n + 1).ceil_lg();
+        let large_meta_size   = cmp::max(1, (n + 1).ceil_lg());
         let small_meta_size   = (large_block_size + 1).ceil_lg();
 
         let mut large_block_ranks =
-- 
2.43.0


From 0140a0c9188c56c8e9264896bf23c781cca38bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 13/25] fix: JacobsonRank ignores storage bits past the end of
 the store

BitVec::get_block may return such bits in the last block; counting them
could exceed the counter width and panic.
---
 src/rank/jacobson.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 1b6559d..3e44392 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -54,7 +54,13 @@ impl<Store: BitVec> JacobsonRank<Store> {
             let excess_rank = current_rank - last_large_rank;
             small_block_ranks.push(excess_rank);
 
-            current_rank += bits.get_block(i).count_ones() as u64;
+            let mut block = bits.get_block(i);
+            if i + 1 == bits.block_len() {
+                // Bits past the end of the store don't count.
+                block = block & Store::Block::low_mask(Store::Block::last_block_bits(n));
+            }
+
+            current_rank += block.count_ones() as u64;
             small_block_index += 1;
 
             if small_block_index == small_per_large {
-- 
2.43.0


From 93583e30192fc4bd50f1b1b658762ebbab6c7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 14/25] fix: select of index u64::MAX finds nothing instead of
 wrapping

---
 src/select/bin_search.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/select/bin_search.rs b/src/select/bin_search.rs
index 4734f37..0ad404f 100644
--- a/src/select/bin_search.rs
+++ b/src/select/bin_search.rs
@@ -53,8 +53,9 @@ macro_rules! impl_select_support_b {
         impl<Rank: BitRankSupport>
         $select_support for BinSearchSelect<Rank> {
             fn $select(&self, index: u64) -> Option<u64> {
-                binary_search_function(0, self.limit(), index + 1,
-                                       |i| self.$rank(i))
+                index.checked_add(1).and_then(|target|
+                    binary_search_function(0, self.limit(), target,
+                                           |i| self.$rank(i)))
             }
         }
     }
@@ -67,8 +68,9 @@ impl<Rank: RankSupport> SelectSupport for BinSearchSelect<Rank> {
     type Over = Rank::Over;
 
     fn select(&self, index: u64, value: Rank::Over) -> Option<u64> {
-        binary_search_function(0, self.limit(), index + 1,
-                               |i| self.rank(i, value))
+        index.checked_add(1).and_then(|target|
+            binary_search_function(0, self.limit(), target,
+                                   |i| self.rank(i, value)))
     }
 }
 
-- 
2.43.0


From 0999a8479e2dc8a33e5fe5b48f29dcf5bea22ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 15/25] fix: broadword select finds nothing for ranks that
 exceed a byte

---
 src/broadword.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/broadword.rs b/src/broadword.rs
index 6855660..3526f6c 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -78,6 +78,9 @@ pub fn select1(r: usize, x: u64) -> Option<usize> {
 ///
 /// Uses the broadword algorithm from Vigna.
 pub fn select1_raw(r: usize, x: u64) -> usize {
+    // Ranks this large would spill over into neighboring bytes.
+    if r >= 64 { return 72; }
+
     let r = r as u64;
     let mut s = x - ((x & 0xAAAA_AAAA_AAAA_AAAA) >> 1);
     s = (s & 0x3333_3333_3333_3333) + ((s >> 2) & 0x3333_3333_3333_3333);
-- 
2.43.0


From dac7877f746e7086d31433834d87f575905f1505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 16/25] fix: Omega rejects 0 instead of encoding it as 1

---
 src/coding/elias.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 3b78154..a0c38bf 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -56,6 +56,8 @@ impl<Header: UniversalCode> UniversalCode for Elias<Header> {
 
 impl UniversalCode for Omega {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
+        assert!(value != 0, "Elias codes do not handle 0");
+
         let mut stack = Vec::<(usize, u64)>::new();
 
         while value > 1 {
-- 
2.43.0


From be115de7f4641a6349d9687621bb1f8415024876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 17/25] fix: Omega::decode reports over-long groups instead of
 overflowing

---
 src/coding/elias.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index a0c38bf..75acb3b 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -81,6 +81,10 @@ impl UniversalCode for Omega {
             if let Some(bit) = try!(source.read_bit()) {
                 if !bit { return Ok(Some(result)); }
 
+                if result > WORD_BITS as u64 - 1 {
+                    return too_many_bits("Omega::decode");
+                }
+
                 if let Some(next) =
                        try!(source.read_int_be::<u64>(result as usize)) {
                     result = next | (1 << result as u32)
-- 
2.43.0


From 631e2d8dfaa3752b3a91ba1292a35475c0c21847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 18/25] fix: Lift0::decode reports an unexpected 0 instead of
 underflowing

---
 src/coding/trans.rs    | 1 +
 src/internal/errors.rs | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/src/coding/trans.rs b/src/coding/trans.rs
index 6401f08..25852b1 100644
--- a/src/coding/trans.rs
+++ b/src/coding/trans.rs
@@ -19,6 +19,7 @@ impl<Code: UniversalCode> UniversalCode for Lift0<Code> {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         match self.0.decode(source) {
+            Ok(Some(0)) => invalid_code("Lift0::decode"),
             Ok(Some(n)) => Ok(Some(n - 1)),
             otherwise => otherwise,
         }
diff --git a/src/internal/errors.rs b/src/internal/errors.rs
index 012c3a9..1b47a5b 100644
--- a/src/internal/errors.rs
+++ b/src/internal/errors.rs
@@ -6,6 +6,11 @@ pub fn out_of_bits<A>(who: &str) -> Result<A> {
                            who)))
 }
 
+pub fn invalid_code<A>(who: &str) -> Result<A> {
+    Err(Error::new(ErrorKind::InvalidData,
+                   format!("{}: not a valid code word", who)))
+}
+
 pub fn too_many_bits<A>(who: &str) -> Result<A> {
     Err(Error::new(ErrorKind::InvalidData,
                    format!("{}: value too big for type", who)))
-- 
2.43.0


From 00a0306088932e4b4b6d2fdd0d2a7aba220919e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 19/25] fix: Comma::decode reports values that are too big
 instead of wrapping

---
 src/coding/comma.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index c1c2552..a6a1d71 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -37,7 +37,11 @@ impl UniversalCode for Comma {
                 if digit == base { return Ok(Some(result)) }
 
                 consumed = true;
-                result = result * base + digit;
+                result = match result.checked_mul(base)
+                                     .and_then(|r: u64| r.checked_add(digit)) {
+                    Some(result) => result,
+                    None => return too_many_bits("Comma::decode"),
+                };
             } else if consumed {
                 return out_of_bits("Comma::decode");
             } else {
-- 
2.43.0


From 2513064ae5dd9c8b2a3443dbbf75880f60183a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 20/25] fix: Comma rejects digit sizes that cannot work

Sizes 0 and 1 divided by zero or looped forever; sizes from 64 overflowed.
---
 src/coding/comma.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index a6a1d71..88bb07c 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -8,9 +8,17 @@ pub struct Comma(pub u8);
 /// `Comma(2)` encodes in base 3.
 pub const COMMA: Comma = Comma(2);
 
+impl Comma {
+    fn base(&self) -> u64 {
+        assert!(self.0 > 1 && self.0 < 64,
+                "Comma: digit size must be between 2 and 63 bits");
+        (1 << self.0) - 1
+    }
+}
+
 impl UniversalCode for Comma {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
-        let base = (1 << self.0) - 1;
+        let base = self.base();
         let mut stack: Vec<u64> = Vec::new();
 
         while value > 0 {
@@ -28,7 +36,7 @@ impl UniversalCode for Comma {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let base = (1 << self.0) - 1;
+        let base = self.base();
         let mut result = 0;
         let mut consumed = false;
 
-- 
2.43.0


From aa79093f9b1dbd1a71f4212966105acab275193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 21/25] fix: Fibonacci::decode reports values that are too big
 instead of wrapping

---
 src/coding/fib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index e001101..5ac534b 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -79,7 +79,10 @@ impl UniversalCode for Fibonacci {
             }
 
             if bit {
-                result += fib.i;
+                result = match fib.i.checked_add(result) {
+                    Some(result) => result,
+                    None => return too_many_bits("Fibonacci::decode"),
+                };
             }
 
             try!(fib.next());
-- 
2.43.0


From b04b40a2dbcca92688c6e69600d60686aac6cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 22/25] fix: Fibonacci::decode reports truncation after leading
 zeroes

A stream ending after only zeroes of a code word was taken for a clean
end of stream.
---
 src/coding/fib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index 5ac534b..b5437ee 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -72,6 +72,7 @@ impl UniversalCode for Fibonacci {
         let mut result  = 0;
         let mut fib = Fib::new();
         let mut previous = false;
+        let mut consumed = false;
 
         while let Some(bit) = try!(source.read_bit()) {
             if bit && previous {
@@ -87,12 +88,13 @@ impl UniversalCode for Fibonacci {
 
             try!(fib.next());
             previous = bit;
+            consumed = true;
         }
 
-        if result == 0 {
-            Ok(None)
-        } else {
+        if consumed {
             out_of_bits("Fibonacci::decode")
+        } else {
+            Ok(None)
         }
     }
 }
-- 
2.43.0


From 68a46d4adcc2860811b253078c13391eedd31fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 23/25] fix: write_int_be of zero bits writes nothing

It computed nbits - 1, which underflows.
---
 src/stream/traits.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 5f45753..51573ee 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -79,6 +79,8 @@ pub trait BitWrite {
     /// Writes the lower `nbits` of `value`, most-significant first.
     fn write_int_be<N: PrimInt>(&mut self, nbits: usize, value: N)
                                 -> Result<()> {
+        if nbits == 0 { return Ok(()); }
+
         let mut mask = N::one() << nbits - 1;
 
         for _ in 0 .. nbits {
-- 
2.43.0


From ef926d565b61c5ca0f902e6319f5b271d8a70d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:52 +0000
Subject: [PATCH 24/25] fix: le8 compared lanes of different sign wrongly when
 their difference overflows

---
 src/broadword.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 3526f6c..7f752f4 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -100,7 +100,7 @@ pub fn u_le8(x: u64, y: u64) -> u64 {
 
 /// Parallel ≤, treating a `u64` as a vector of 8 `i8`s.
 pub fn le8(x: u64, y: u64) -> u64 {
-    (((y | H8) - (x & !H8)) ^ x ^ y) & H8
+    ((((y | H8) - (x & !H8)) | (x ^ y)) ^ (y & !x)) & H8
 }
 
 /// Parallel >0, treating a `u64` as a vector of 8 `u8`s.
-- 
2.43.0


From 4f9f94294b599cad7616a81e393dd1c2a91436fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:30 +0000
Subject: [PATCH 25/25] fix: shift the mask of write_int_be without sign
 extension

Writing a signed integer at its full width repeated the sign bit: the mask
starts at the sign bit and was shifted arithmetically.
---
 src/stream/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 51573ee..2d3805c 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -85,7 +85,7 @@ pub trait BitWrite {
 
         for _ in 0 .. nbits {
             try!(self.write_bit(value & mask != N::zero()));
-            mask = mask >> 1;
+            mask = mask.unsigned_shr(1);
         }
 
         Ok(())
-- 
2.43.0

