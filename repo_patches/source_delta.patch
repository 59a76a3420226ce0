From a63762b5df62729dcd8f024fbdaad8da87b06d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 01/20] fix: JacobsonRank::new panicked (division by zero) on
 vectors of 0 or 1 bits

---
 src/rank/jacobson.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index cd525f6..1b93fb6 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -1,3 +1,5 @@
+use std::cmp::max;
+
 use num_traits::PrimInt;
 
 use bit_vec::BitVec;
@@ -26,12 +28,12 @@ impl<Store: BitVec> JacobsonRank<Store> {
         let lg2_n = lg_n * lg_n;
 
         let small_block_size  = Store::Block::nbits();
-        let small_per_large   = lg2_n.ceil_div(small_block_size);
+        let small_per_large   = max(1, lg2_n.ceil_div(small_block_size));
         let large_block_size  = small_block_size * small_per_large;
         let large_block_count = n / large_block_size as u64 + 1;
         let small_block_count = n / small_block_size as u64 + 1;
 
-        let large_meta_size   = (n + 1).ceil_lg();
+        let large_meta_size   = max(1, (n + 1).ceil_lg());
         let small_meta_size   = (large_block_size + 1).ceil_lg();
 
         let mut large_block_ranks =
-- 
2.43.0


From 6e614ef8e43c22f223147bde934ef936483013a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:04 +0000
Subject: [PATCH 02/20] fix: JacobsonRank::new counted the last block's bits
 past the end of the vector

---
 src/rank/jacobson.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/rank/jacobson.rs b/src/rank/jacobson.rs
index 1b93fb6..6469909 100644
--- a/src/rank/jacobson.rs
+++ b/src/rank/jacobson.rs
@@ -54,7 +54,15 @@ impl<Store: BitVec> JacobsonRank<Store> {
             let excess_rank = current_rank - last_large_rank;
             small_block_ranks.push(excess_rank);
 
-            current_rank += bits.get_block(i).count_ones() as u64;
+            // The last block may have extra bits that aren't in the vector.
+            let block_bits = if i + 1 == bits.block_len() {
+                Store::Block::last_block_bits(n)
+            } else {
+                Store::Block::nbits()
+            };
+            let block = bits.get_block(i).get_bits(0, block_bits);
+
+            current_rank += block.count_ones() as u64;
             small_block_index += 1;
 
             if small_block_index == small_per_large {
-- 
2.43.0


From 7dfe5434656107a1cc85684ff83771b4ea8b46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 03/20] fix: BinSearchSelect::select*(u64::MAX) overflowed
 instead of returning None

---
 src/select/bin_search.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/select/bin_search.rs b/src/select/bin_search.rs
index 4734f37..687dd81 100644
--- a/src/select/bin_search.rs
+++ b/src/select/bin_search.rs
@@ -53,7 +53,11 @@ macro_rules! impl_select_support_b {
         impl<Rank: BitRankSupport>
         $select_support for BinSearchSelect<Rank> {
             fn $select(&self, index: u64) -> Option<u64> {
-                binary_search_function(0, self.limit(), index + 1,
+                let count = match index.checked_add(1) {
+                    Some(count) => count,
+                    None => return None,
+                };
+                binary_search_function(0, self.limit(), count,
                                        |i| self.$rank(i))
             }
         }
@@ -67,7 +71,11 @@ impl<Rank: RankSupport> SelectSupport for BinSearchSelect<Rank> {
     type Over = Rank::Over;
 
     fn select(&self, index: u64, value: Rank::Over) -> Option<u64> {
-        binary_search_function(0, self.limit(), index + 1,
+        let count = match index.checked_add(1) {
+            Some(count) => count,
+            None => return None,
+        };
+        binary_search_function(0, self.limit(), count,
                                |i| self.rank(i, value))
     }
 }
-- 
2.43.0


From a2b0fa4c4266c6b3c3552bb592eaa50724aa8b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 04/20] fix: broadword::select1 found bits for indices past 127

---
 src/broadword.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/broadword.rs b/src/broadword.rs
index 00b56f7..6ba9364 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -78,6 +78,8 @@ pub fn select1(r: usize, x: u64) -> Option<usize> {
 ///
 /// Uses the broadword algorithm from Vigna.
 pub fn select1_raw(r: usize, x: u64) -> usize {
+    if r >= 64 { return 72; }
+
     let r = r as u64;
     let mut s = x - ((x & 0xAAAA_AAAA_AAAA_AAAA) >> 1);
     s = (s & 0x3333_3333_3333_3333) + ((s >> 2) & 0x3333_3333_3333_3333);
-- 
2.43.0


From 3056fab65d08b6d3ffcbc7a38f12935589794bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:08 +0000
Subject: [PATCH 05/20] fix: broadword::le8 was wrong for bytes of different
 signs

---
 src/broadword.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 6ba9364..23b9abe 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -99,7 +99,7 @@ pub fn u_le8(x: u64, y: u64) -> u64 {
 
 /// Parallel ≤, treating a `u64` as a vector of 8 `i8`s.
 pub fn le8(x: u64, y: u64) -> u64 {
-    (((y | H8) - (x & !H8)) ^ x ^ y) & H8
+    ((((y | H8) - (x & !H8)) & !(x ^ y)) | (x & !y)) & H8
 }
 
 /// Parallel >0, treating a `u64` as a vector of 8 `u8`s.
-- 
2.43.0


From 53ae6b44a9c0b59b1d21925054c1ff255967de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 06/20] fix: reserve and reserve_exact reserved too little when
 there was spare capacity

---
 src/internal/vector_base.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index f6a121d..47fe793 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -284,7 +284,7 @@ impl<Block: BlockType> VectorBase<Block> {
                 .and_then(|e| e.checked_mul(element_bits as u64))
                 .and_then(Block::checked_ceil_div_nbits)
                 .expect("VectorBase::reserve_(exact): overflow")
-                .saturating_sub(self.vec.capacity())
+                .saturating_sub(self.vec.len())
     }
 
     #[inline]
-- 
2.43.0


From 7562d8efe5a85410fb53b9509747e4d066c3ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 07/20] fix: Iter::nth past the end made len and size_hint
 underflow

---
 src/internal/vector_base.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index 47fe793..c1122a2 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -391,6 +391,7 @@ impl<'a, Block: BlockType> Iterator for Iter<'a, Block> {
     #[inline]
     fn nth(&mut self, n: usize) -> Option<Self::Item> {
         self.start = self.start.checked_add(n as u64).unwrap_or(self.limit);
+        if self.start > self.limit { self.start = self.limit; }
         self.next()
     }
 }
-- 
2.43.0


From a03f651710f35719dcc5bd49f31149b542e4810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 08/20] fix: BitSlice and BitSliceMut could not get or set a
 partial last block

---
 src/bit_vec/bit_slice.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/bit_vec/bit_slice.rs b/src/bit_vec/bit_slice.rs
index 5f84118..5a9e70f 100644
--- a/src/bit_vec/bit_slice.rs
+++ b/src/bit_vec/bit_slice.rs
@@ -1,3 +1,4 @@
+use std::cmp::min;
 use std::ops::{Range, RangeTo, RangeFrom, RangeFull};
 
 use bit_vec::traits::*;
@@ -108,7 +109,11 @@ impl<'a, Base: 'a + BitVec + ?Sized> BitVec for BitSlice<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(),
+                "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = min(self.len - start, Self::Block::nbits() as u64);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -134,7 +139,11 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVec for BitSliceMut<'a, Base> {
     }
 
     fn get_block(&self, position: usize) -> Self::Block {
-        self.get_bits(Self::Block::mul_nbits(position), Self::Block::nbits())
+        assert!(position < self.block_len(),
+                "BitSlice::get_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = min(self.len - start, Self::Block::nbits() as u64);
+        self.get_bits(start, count as usize)
     }
 }
 
@@ -153,8 +162,11 @@ impl<'a, Base: 'a + BitVecMut + ?Sized> BitVecMut for BitSliceMut<'a, Base> {
     }
 
     fn set_block(&mut self, position: usize, value: Self::Block) {
-        self.set_bits(Self::Block::mul_nbits(position),
-                      Self::Block::nbits(), value);
+        assert!(position < self.block_len(),
+                "BitSlice::set_block: out of bounds");
+        let start = Self::Block::mul_nbits(position);
+        let count = min(self.len - start, Self::Block::nbits() as u64);
+        self.set_bits(start, count as usize, value);
     }
 }
 
-- 
2.43.0


From 1a2452c578c4612ea464f26c003edddcb76af596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 09/20] fix: getting or setting 0 bits at the end of a
 block-aligned vector panicked

---
 src/bit_vec/traits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index cf62776..1e16fb2 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -78,6 +78,8 @@ pub trait BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
 
+        if count == 0 { return Self::Block::zero(); }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
@@ -160,6 +162,8 @@ pub trait BitVecMut: BitVec {
         let limit = start + count as u64;
         assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
 
+        if count == 0 { return; }
+
         let address = Address::new::<Self::Block>(start);
         let margin = Self::Block::nbits() - address.bit_offset;
 
-- 
2.43.0


From 624e163b0bbefb69e4ed44f29c70d1ce958d1d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 10/20] fix: Omega::decode overflowed on codes too big for u64;
 Omega::encode took 0 for 1

---
 src/coding/elias.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coding/elias.rs b/src/coding/elias.rs
index 3b78154..75acb3b 100644
--- a/src/coding/elias.rs
+++ b/src/coding/elias.rs
@@ -56,6 +56,8 @@ impl<Header: UniversalCode> UniversalCode for Elias<Header> {
 
 impl UniversalCode for Omega {
     fn encode<W: BitWrite>(&self, sink: &mut W, mut value: u64) -> Result<()> {
+        assert!(value != 0, "Elias codes do not handle 0");
+
         let mut stack = Vec::<(usize, u64)>::new();
 
         while value > 1 {
@@ -79,6 +81,10 @@ impl UniversalCode for Omega {
             if let Some(bit) = try!(source.read_bit()) {
                 if !bit { return Ok(Some(result)); }
 
+                if result > WORD_BITS as u64 - 1 {
+                    return too_many_bits("Omega::decode");
+                }
+
                 if let Some(next) =
                        try!(source.read_int_be::<u64>(result as usize)) {
                     result = next | (1 << result as u32)
-- 
2.43.0


From 2c47987b6cefa2beda5a9e684540d9453fef57ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 11/20] fix: Fibonacci::decode overflowed on too-big codes and
 took truncated codes for EOF

---
 src/coding/fib.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/coding/fib.rs b/src/coding/fib.rs
index e001101..f983f04 100644
--- a/src/coding/fib.rs
+++ b/src/coding/fib.rs
@@ -69,9 +69,10 @@ impl UniversalCode for Fibonacci {
     }
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
-        let mut result  = 0;
+        let mut result: u64 = 0;
         let mut fib = Fib::new();
         let mut previous = false;
+        let mut consumed = false;
 
         while let Some(bit) = try!(source.read_bit()) {
             if bit && previous {
@@ -79,17 +80,21 @@ impl UniversalCode for Fibonacci {
             }
 
             if bit {
-                result += fib.i;
+                result = match result.checked_add(fib.i) {
+                    Some(result) => result,
+                    None => return too_many_bits("Fibonacci::decode"),
+                };
             }
 
             try!(fib.next());
             previous = bit;
+            consumed = true;
         }
 
-        if result == 0 {
-            Ok(None)
-        } else {
+        if consumed {
             out_of_bits("Fibonacci::decode")
+        } else {
+            Ok(None)
         }
     }
 }
-- 
2.43.0


From 6a0f24850f84b4e2ea5b1d175d6bf7018de310b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 12/20] fix: Comma::decode overflowed on codes too big for u64

---
 src/coding/comma.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coding/comma.rs b/src/coding/comma.rs
index c1c2552..1443304 100644
--- a/src/coding/comma.rs
+++ b/src/coding/comma.rs
@@ -29,7 +29,7 @@ impl UniversalCode for Comma {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         let base = (1 << self.0) - 1;
-        let mut result = 0;
+        let mut result: u64 = 0;
         let mut consumed = false;
 
         loop {
@@ -37,7 +37,11 @@ impl UniversalCode for Comma {
                 if digit == base { return Ok(Some(result)) }
 
                 consumed = true;
-                result = result * base + digit;
+                result = match result.checked_mul(base)
+                                     .and_then(|r| r.checked_add(digit)) {
+                    Some(result) => result,
+                    None => return too_many_bits("Comma::decode"),
+                };
             } else if consumed {
                 return out_of_bits("Comma::decode");
             } else {
-- 
2.43.0


From c725d5a29761cbc48c2412c6bc96841e38cba312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:22 +0000
Subject: [PATCH 13/20] fix: Lift0::decode underflowed when the underlying code
 decoded 0

---
 src/coding/trans.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coding/trans.rs b/src/coding/trans.rs
index 6401f08..1051c20 100644
--- a/src/coding/trans.rs
+++ b/src/coding/trans.rs
@@ -1,3 +1,5 @@
+use std::io::{Error, ErrorKind};
+
 use super::*;
 use internal::errors::*;
 use stream::*;
@@ -19,6 +21,8 @@ impl<Code: UniversalCode> UniversalCode for Lift0<Code> {
 
     fn decode<R: BitRead>(&self, source: &mut R) -> Result<Option<u64>> {
         match self.0.decode(source) {
+            Ok(Some(0)) => Err(Error::new(ErrorKind::InvalidData,
+                                          "Lift0::decode: unexpected 0")),
             Ok(Some(n)) => Ok(Some(n - 1)),
             otherwise => otherwise,
         }
-- 
2.43.0


From 4852156e16857c9ed3f8596778ad3a068d0c4e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:23 +0000
Subject: [PATCH 14/20] fix: write_int_be panicked for 0 bits and was wrong for
 full-width signed values

---
 src/stream/traits.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/stream/traits.rs b/src/stream/traits.rs
index 5f45753..2d3805c 100644
--- a/src/stream/traits.rs
+++ b/src/stream/traits.rs
@@ -79,11 +79,13 @@ pub trait BitWrite {
     /// Writes the lower `nbits` of `value`, most-significant first.
     fn write_int_be<N: PrimInt>(&mut self, nbits: usize, value: N)
                                 -> Result<()> {
+        if nbits == 0 { return Ok(()); }
+
         let mut mask = N::one() << nbits - 1;
 
         for _ in 0 .. nbits {
             try!(self.write_bit(value & mask != N::zero()));
-            mask = mask >> 1;
+            mask = mask.unsigned_shr(1);
         }
 
         Ok(())
-- 
2.43.0


From d6d3d4ceacdad55ed478235c1ca974633f2e95f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 15/20] fix: rounding a bit size near u64::MAX up to blocks
 wrapped around to 0

---
 src/storage.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage.rs b/src/storage.rs
index d5f9cd7..fbf6495 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -57,7 +57,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// size, which is why it takes `u64` and returns `usize`.
     #[inline]
     fn ceil_div_nbits(index: u64) -> usize {
-        Self::div_nbits(index + (Self::nbits() as u64 - 1))
+        let extra = if Self::mod_nbits(index) == 0 {0} else {1};
+        Self::div_nbits(index) + extra
     }
 
     /// Returns `index / Self::nbits()` rounded up, computed by shifting.
@@ -69,7 +70,8 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// be small enough.
     #[inline]
     fn checked_ceil_div_nbits(index: u64) -> Option<usize> {
-        Self::checked_div_nbits(index + (Self::nbits() as u64 - 1))
+        let extra = if Self::mod_nbits(index) == 0 {0} else {1};
+        Self::checked_div_nbits(index).and_then(|n| n.checked_add(extra))
     }
 
     /// Returns `index % Self::nbits()`, computed by masking.
-- 
2.43.0


From 01d13f100c11240f252d58f09283bb0d86ad4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 16/20] fix: BlockType::ceil_div overflowed for numbers near
 the maximum

---
 src/storage.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage.rs b/src/storage.rs
index fbf6495..2669ae1 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -225,7 +225,12 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Returns the smallest number `n` such that `n * divisor >= self`.
     #[inline]
     fn ceil_div(self, divisor: Self) -> Self {
-        (self + divisor - Self::one()) / divisor
+        let quotient = self / divisor;
+        if self % divisor == Self::zero() {
+            quotient
+        } else {
+            quotient + Self::one()
+        }
     }
 
     // I/O methods
-- 
2.43.0


From be80de4d82f7845e867913559549e27ff590ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:28 +0000
Subject: [PATCH 17/20] fix: rank at or past the limit returned garbage instead
 of panicking

---
 src/broadword.rs  | 2 +-
 src/rank/prim.rs  | 3 ++-
 src/rank/rank9.rs | 2 ++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/broadword.rs b/src/broadword.rs
index 23b9abe..1ea7ed4 100644
--- a/src/broadword.rs
+++ b/src/broadword.rs
@@ -29,7 +29,7 @@ pub struct Broadword(pub u64);
 
 impl BitRankSupport for Broadword {
     fn rank1(&self, position: u64) -> u64 {
-        debug_assert!(position < 64);
+        assert!(position < 64, "Broadword::rank1: out of bounds");
         count_ones(self.0 & u64::low_mask(position as usize + 1)) as u64
     }
 }
diff --git a/src/rank/prim.rs b/src/rank/prim.rs
index 7d10a78..1351f85 100644
--- a/src/rank/prim.rs
+++ b/src/rank/prim.rs
@@ -19,7 +19,8 @@ macro_rules! impl_rank_support_prim {
 
         impl BitRankSupport for $t {
             fn rank1(&self, position: u64) -> u64 {
-                debug_assert!(position < Self::nbits() as u64);
+                assert!(position < Self::nbits() as u64,
+                        "prim::rank1: out of bounds");
 
                 let mask = Self::low_mask((position + 1) as usize);
                 (*self & mask).count_ones() as u64
diff --git a/src/rank/rank9.rs b/src/rank/rank9.rs
index f30d225..d8a6ca8 100644
--- a/src/rank/rank9.rs
+++ b/src/rank/rank9.rs
@@ -131,6 +131,8 @@ impl<Store: BitVec<Block = u64>> Rank9<Store> {
 
 impl<Store: BitVec<Block = u64>> BitRankSupport for Rank9<Store> {
     fn rank1(&self, position: u64) -> u64 {
+        assert!(position < self.bit_len(), "Rank9::rank1: out of bounds");
+
         let bb_index = (position / 512).to_usize()
                                        .expect("Rank9::rank1: index overflow");
         let word_index = (position / 64).to_usize()
-- 
2.43.0


From 9f4218951ee97a9985ac042e9e9716e32fff68fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 18/20] fix: the bounds checks of bit spans wrapped around in
 release builds

---
 src/bit_vec/prim.rs         |  6 ++++--
 src/bit_vec/traits.rs       | 10 ++++++----
 src/internal/vector_base.rs | 10 ++++++----
 src/storage.rs              |  4 ++--
 4 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/bit_vec/prim.rs b/src/bit_vec/prim.rs
index 26e7d1d..2384b56 100644
--- a/src/bit_vec/prim.rs
+++ b/src/bit_vec/prim.rs
@@ -33,7 +33,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn get_bits(&self, start: u64, count: usize) -> Self {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(count <= Self::nbits()
+                            && start <= (Self::nbits() - count) as u64,
                         "prim::get_bits: out of bounds");
                 BlockType::get_bits(*self, start as usize, count)
             }
@@ -55,7 +56,8 @@ macro_rules! impl_bits_prim {
 
             #[inline]
             fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-                assert!(start + count as u64 <= Self::nbits() as u64,
+                assert!(count <= Self::nbits()
+                            && start <= (Self::nbits() - count) as u64,
                         "prim::set_bits: out of bounds");
                 *self = self.with_bits(start as usize, count, value);
             }
diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 1e16fb2..9aaccbf 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -75,8 +75,9 @@ pub trait BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn get_bits(&self, start: u64, count: usize) -> Self::Block {
-        let limit = start + count as u64;
-        assert!(limit <= self.bit_len(), "BitVec::get_bits: out of bounds");
+        assert!(count as u64 <= self.bit_len()
+                    && start <= self.bit_len() - count as u64,
+                "BitVec::get_bits: out of bounds");
 
         if count == 0 { return Self::Block::zero(); }
 
@@ -159,8 +160,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if the bit span goes out of bounds.
     fn set_bits(&mut self, start: u64, count: usize, value: Self::Block) {
-        let limit = start + count as u64;
-        assert!(limit <= self.bit_len(), "BitVecMut::set_bits: out of bounds");
+        assert!(count as u64 <= self.bit_len()
+                    && start <= self.bit_len() - count as u64,
+                "BitVecMut::set_bits: out of bounds");
 
         if count == 0 { return; }
 
diff --git a/src/internal/vector_base.rs b/src/internal/vector_base.rs
index c1122a2..f41fb86 100644
--- a/src/internal/vector_base.rs
+++ b/src/internal/vector_base.rs
@@ -117,8 +117,9 @@ impl<Block: BlockType> VectorBase<Block> {
     #[inline]
     pub fn get_bits(&self, element_bits: usize, index: u64, count: usize)
                     -> Block {
-        // If element_bits is legit then the RHS of the comparison can't overflow.
-        assert!(index + count as u64 <= self.len * element_bits as u64,
+        // If element_bits is legit then this can't overflow.
+        let bit_len = self.len * element_bits as u64;
+        assert!(count as u64 <= bit_len && index <= bit_len - count as u64,
                 "VectorBase::get_bits: out of bounds");
         self.vec.get_bits(index, count)
     }
@@ -126,8 +127,9 @@ impl<Block: BlockType> VectorBase<Block> {
     #[inline]
     pub fn set_bits(&mut self, element_bits: usize, index: u64,
                     count: usize, value: Block) {
-        // If element_bits is legit then the RHS of the comparison can't overflow.
-        assert!(index + count as u64 <= self.len * element_bits as u64,
+        // If element_bits is legit then this can't overflow.
+        let bit_len = self.len * element_bits as u64;
+        assert!(count as u64 <= bit_len && index <= bit_len - count as u64,
                 "VectorBase::set_bits: out of bounds");
         self.vec.set_bits(index, count, value);
     }
diff --git a/src/storage.rs b/src/storage.rs
index 2669ae1..28ecd6d 100644
--- a/src/storage.rs
+++ b/src/storage.rs
@@ -180,7 +180,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn get_bits(self, start: usize, len: usize) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(len <= Self::nbits() && start <= Self::nbits() - len,
                 "Block::get_bits: out of bounds");;
 
         if len == 0 { return Self::zero(); }
@@ -195,7 +195,7 @@ pub trait BlockType: PrimInt + BitVec + BitVecMut + BitRankSupport +
     /// Panics of the bit span is out of bounds.
     #[inline]
     fn with_bits(self, start: usize, len: usize, value: Self) -> Self {
-        assert!(start + len <= Self::nbits(),
+        assert!(len <= Self::nbits() && start <= Self::nbits() - len,
                 "Block::with_bits: out of bounds");
 
         if len == 0 { return self; }
-- 
2.43.0


From b4e543dd46e2099c10d64054f31d85ebd2414acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:32 +0000
Subject: [PATCH 19/20] fix: getting or setting more bits than fit in a block
 silently lost some

---
 src/bit_vec/traits.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index 9aaccbf..c5c206a 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -78,6 +78,8 @@ pub trait BitVec {
         assert!(count as u64 <= self.bit_len()
                     && start <= self.bit_len() - count as u64,
                 "BitVec::get_bits: out of bounds");
+        assert!(count <= Self::Block::nbits(),
+                "BitVec::get_bits: more bits than fit in a block");
 
         if count == 0 { return Self::Block::zero(); }
 
@@ -163,6 +165,8 @@ pub trait BitVecMut: BitVec {
         assert!(count as u64 <= self.bit_len()
                     && start <= self.bit_len() - count as u64,
                 "BitVecMut::set_bits: out of bounds");
+        assert!(count <= Self::Block::nbits(),
+                "BitVecMut::set_bits: more bits than fit in a block");
 
         if count == 0 { return; }
 
-- 
2.43.0


From a0b415b1eae7596b940f1326da26c295388f2885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 20/20] fix: the default set_block wrapped around for a
 position far out of bounds

---
 src/bit_vec/traits.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bit_vec/traits.rs b/src/bit_vec/traits.rs
index c5c206a..87ec674 100644
--- a/src/bit_vec/traits.rs
+++ b/src/bit_vec/traits.rs
@@ -141,6 +141,9 @@ pub trait BitVecMut: BitVec {
     ///
     /// Panics if `position` is out of bounds.
     fn set_block(&mut self, position: usize, mut value: Self::Block) {
+        assert!(position < self.block_len(),
+                "BitVecMut::set_block: out of bounds");
+
         let limit = if position + 1 == self.block_len() {
             Self::Block::last_block_bits(self.bit_len())
         } else {
-- 
2.43.0

