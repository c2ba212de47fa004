From 6860bd5e687a50106d6e98a0d769ae3f87b61fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:15 +0000
Subject: [PATCH 01/59] fix: primitive WrappingAdd must add, not subtract

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 741e976..8f0e30b 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -170,7 +170,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn wrapping_add(self, rhs: Self) -> Self::Output {
-                <$ty>::wrapping_sub(self, rhs)
+                <$ty>::wrapping_add(self, rhs)
             }
         }
 
-- 
2.43.0


From 95d205742c6de6889ad0829e531b2b22c5e4dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:03 +0000
Subject: [PATCH 02/59] fix: checked shifts must not truncate the shift amount
 to 32 bits

---
 crates/traits/src/__impl.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 8f0e30b..fdb05ee 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -76,7 +76,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shl(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -84,7 +84,7 @@ macro_rules! checked_shift {
             type Output = $ty;
 
             fn checked_shr(self, rhs: usize) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
     };
@@ -266,7 +266,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shl(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shl(self, rhs as u32)
+                <$ty>::checked_shl(self, u32::try_from(rhs).ok()?)
             }
         }
 
@@ -274,7 +274,7 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn checked_shr(self, rhs: Self) -> Option<Self> {
-                <$ty>::checked_shr(self, rhs as u32)
+                <$ty>::checked_shr(self, u32::try_from(rhs).ok()?)
             }
         }
 
-- 
2.43.0


From 27a22ca433d876c177f4d4cc94fd221dba0e81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:04 +0000
Subject: [PATCH 03/59] fix: primitive Pow must not truncate the exponent to 32
 bits

---
 crates/traits/src/__impl.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index fdb05ee..874e296 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -146,7 +146,19 @@ macro_rules! impl_int {
             type Output = $ty;
 
             fn pow(self, rhs: Self) -> Self::Output {
-                <$ty>::pow(self, rhs as u32)
+                match u32::try_from(rhs) {
+                    Ok(rhs) => <$ty>::pow(self, rhs),
+                    // Exponent too large for the inherent method, split it
+                    Err(_) if rhs > 0 => {
+                        let half = crate::ops::Pow::pow(self, rhs / 2);
+                        if rhs % 2 == 1 {
+                            half * half * self
+                        } else {
+                            half * half
+                        }
+                    }
+                    Err(_) => <$ty>::pow(self, rhs as u32),
+                }
             }
         }
 
-- 
2.43.0


From bd7f3c42eab41ce126124f9d52649b23eadddb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:05 +0000
Subject: [PATCH 04/59] fix: signed Gcd must return the (non-negative) greatest
 divisor and not panic

---
 crates/traits/src/__impl.rs | 41 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 874e296..d5b4bd8 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -162,22 +162,6 @@ macro_rules! impl_int {
             }
         }
 
-        impl crate::ops::Gcd for $ty {
-            type Output = $ty;
-
-            fn gcd(self, rhs: Self) -> Self::Output {
-                if self == 0 && rhs == 0 {
-                    return 0;
-                }
-
-                let [mut min, mut max] = minmax(self, rhs);
-                while min != 0 {
-                    (min, max) = (max % min, min);
-                }
-                max
-            }
-        }
-
         impl crate::ops::wrapping::WrappingAdd for $ty {
             type Output = $ty;
 
@@ -317,6 +301,22 @@ macro_rules! impl_uint {
     ($ty:ty) => {
         impl crate::class::Unsigned for $ty {}
 
+        impl crate::ops::Gcd for $ty {
+            type Output = $ty;
+
+            fn gcd(self, rhs: Self) -> Self::Output {
+                if self == 0 && rhs == 0 {
+                    return 0;
+                }
+
+                let [mut min, mut max] = minmax(self, rhs);
+                while min != 0 {
+                    (min, max) = (max % min, min);
+                }
+                max
+            }
+        }
+
         impl crate::ops::Factorial for $ty {
             type Output = $ty;
 
@@ -329,6 +329,15 @@ macro_rules! impl_uint {
 
 macro_rules! impl_sint {
     ($ty:ty) => {
+        impl crate::ops::Gcd for $ty {
+            type Output = $ty;
+
+            fn gcd(self, rhs: Self) -> Self::Output {
+                // The greatest divisor is never negative, so only the magnitudes matter
+                crate::ops::Gcd::gcd(self.unsigned_abs(), rhs.unsigned_abs()) as $ty
+            }
+        }
+
         impl crate::class::Signed for $ty {
             #[inline]
             fn abs(self) -> Self {
-- 
2.43.0


From 17bb4060231525a4c78331d021a91512f8b5c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:05 +0000
Subject: [PATCH 05/59] fix: Signed::is_positive is documented as >= 0, include
 zero for primitives

---
 crates/traits/src/__impl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index d5b4bd8..3e8a40f 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -346,7 +346,7 @@ macro_rules! impl_sint {
 
             #[inline]
             fn is_positive(&self) -> bool {
-                <$ty>::is_positive(*self)
+                *self >= 0
             }
 
             #[inline]
-- 
2.43.0


From 79179d52cfae89af796eea767c37f23da9efa617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:05 +0000
Subject: [PATCH 06/59] fix: NonZero is_one must compare with one

---
 crates/traits/src/__impl/nz.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/traits/src/__impl/nz.rs b/crates/traits/src/__impl/nz.rs
index 36fce39..17238a4 100644
--- a/crates/traits/src/__impl/nz.rs
+++ b/crates/traits/src/__impl/nz.rs
@@ -13,7 +13,7 @@ macro_rules! impl_nz {
             }
 
             fn is_one(&self) -> bool {
-                self.get() != 0
+                self.get() == 1
             }
         }
 
-- 
2.43.0


From f4eb0852f5b276fa8ca53b87080f7c03efb577c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:29 +0000
Subject: [PATCH 07/59] fix: slice subtraction must return the right magnitude
 when it borrows

---
 crates/bits/src/algos/bitwise/sub.rs | 7 ++++---
 crates/bits/src/algos/element/sub.rs | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/sub.rs b/crates/bits/src/algos/bitwise/sub.rs
index cd701fd..a383214 100644
--- a/crates/bits/src/algos/bitwise/sub.rs
+++ b/crates/bits/src/algos/bitwise/sub.rs
@@ -1,8 +1,8 @@
-use crate::algos::ElementNot;
+use crate::algos::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::identity::Zero;
+use numeric_traits::identity::{One, Zero};
 
 pub trait BitwiseSub: BitSliceExt {
     #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait BitwiseSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's-complement negation gives the magnitude of the (negative) result
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[Self::Bit::one()]);
         }
 
         (out, carry)
diff --git a/crates/bits/src/algos/element/sub.rs b/crates/bits/src/algos/element/sub.rs
index db2448c..d7bf294 100644
--- a/crates/bits/src/algos/element/sub.rs
+++ b/crates/bits/src/algos/element/sub.rs
@@ -1,4 +1,4 @@
-use crate::algos::element::ElementNot;
+use crate::algos::element::{ElementAdd, ElementNot};
 use crate::bit_slice::BitSliceExt;
 use crate::utils::IntSlice;
 #[cfg(feature = "std")]
@@ -44,8 +44,9 @@ pub trait ElementSub: BitSliceExt {
         }
 
         if carry {
-            out.set_bit(0, !out.get_bit(0));
+            // Two's-complement negation gives the magnitude of the (negative) result
             ElementNot::not(&mut out);
+            ElementAdd::add_wrapping(&mut out, &[one]);
         }
 
         (IntSlice::shrink(out), carry)
-- 
2.43.0


From 9c5d0c7cc1deb8ea1fc465ecc3385d7c02465369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:29 +0000
Subject: [PATCH 08/59] fix: slice comparison must start from the most
 significant element

---
 crates/bits/src/algos/element/cmp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/cmp.rs b/crates/bits/src/algos/element/cmp.rs
index 057b19e..9d77093 100644
--- a/crates/bits/src/algos/element/cmp.rs
+++ b/crates/bits/src/algos/element/cmp.rs
@@ -10,7 +10,7 @@ pub trait ElementCmp: BitSliceExt {
         let zero = Self::Bit::zero();
         let len = usize::max(left.len(), right.len());
         // let iter = Iterator::zip(left.iter(), right.iter());
-        for idx in 0..len {
+        for idx in (0..len).rev() {
             match Ord::cmp(
                 &left.get_opt(idx).unwrap_or(zero),
                 &right.get_opt(idx).unwrap_or(zero),
-- 
2.43.0


From 8ac9ff773e4605b2b9ed076efa6d43a1e5b74b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:30 +0000
Subject: [PATCH 09/59] fix: slice right shift must not underflow for shifts
 past the first element

---
 crates/bits/src/algos/element/shr.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index e055d45..ceb8ae0 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -20,17 +20,17 @@ pub trait ElementShr: BitSliceExt {
             let high = val << inverse_elem_shift;
             let low = val >> elem_shift;
 
-            if idx != 0 {
-                let high = (out.get_opt(idx - arr_shift).unwrap_or(zero) & !elem_mask)
-                    | (high & elem_mask);
+            if let Some(idx) = usize::checked_sub(idx, arr_shift) {
+                let high = (out.get_opt(idx).unwrap_or(zero) & !elem_mask) | (high & elem_mask);
 
-                out.set_ignore(idx - arr_shift, high);
+                out.set_ignore(idx, high);
             }
 
-            let low =
-                (out.get_opt(idx + 1 - arr_shift).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+            if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
+                let low = (out.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
 
-            out.set_ignore(idx + 1 - arr_shift, low);
+                out.set_ignore(idx, low);
+            }
         });
 
         IntSlice::shrink(out)
-- 
2.43.0


From 00ad4b5f3515e2e207011f50ea3366a34d71de07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:30 +0000
Subject: [PATCH 10/59] fix: in-place slice right shift by the full width must
 not underflow

---
 crates/bits/src/algos/element/shr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index ceb8ae0..4a4ec95 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -63,7 +63,7 @@ pub trait ElementShr: BitSliceExt {
                 left.set_ignore(idx, low);
             }
         });
-        let empty = left.len() - arr_shift + 1;
+        let empty = left.len() + 1 - arr_shift;
         left.slice_mut()[empty..].fill(zero);
 
         left
-- 
2.43.0


From 7829cdc2e502c43af984c23013e94c72786c3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:31 +0000
Subject: [PATCH 11/59] fix: wrapping slice shifts must wrap at the bit width
 for non-power-of-two widths

---
 crates/bits/src/algos/element/shl.rs | 4 +---
 crates/bits/src/algos/element/shr.rs | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/bits/src/algos/element/shl.rs b/crates/bits/src/algos/element/shl.rs
index 2a58669..765e316 100644
--- a/crates/bits/src/algos/element/shl.rs
+++ b/crates/bits/src/algos/element/shl.rs
@@ -1,6 +1,5 @@
 #[cfg(feature = "std")]
 use alloc::{vec, vec::Vec};
-use numeric_traits::cast::FromTruncating;
 use numeric_traits::class::Bounded;
 use numeric_traits::identity::Zero;
 
@@ -82,8 +81,7 @@ pub trait ElementShl: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shl_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = usize::truncate_from(bit_len.leading_zeros()) + 1;
-        Self::inner_shl_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shl_wrap_and_mask(left, right % bit_len)
     }
 }
 
diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 4a4ec95..1003a86 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -83,8 +83,7 @@ pub trait ElementShr: BitSliceExt {
     /// the shift value if it is greater than the number of bits in the left-hand side.
     fn shr_wrapping(left: &mut Self, right: usize) -> &mut Self {
         let bit_len = left.bit_len();
-        let num_zeroes = (bit_len.leading_zeros() as usize) + 1;
-        Self::inner_shr_wrap_and_mask(left, right & usize::MAX >> num_zeroes)
+        Self::inner_shr_wrap_and_mask(left, right % bit_len)
     }
 }
 
-- 
2.43.0


From 4f5f7426c0c0251c8b0be3f92aea82604f771cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:31 +0000
Subject: [PATCH 12/59] fix: overflowing slice multiply must report overflow
 past the last element

---
 crates/bits/src/algos/element/mul.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/mul.rs b/crates/bits/src/algos/element/mul.rs
index 242f165..8a83484 100644
--- a/crates/bits/src/algos/element/mul.rs
+++ b/crates/bits/src/algos/element/mul.rs
@@ -35,7 +35,8 @@ pub trait ElementMul: BitSliceExt {
 
     fn add_item(&mut self, mut idx: usize, mut val: Self::Bit) -> bool {
         let slice = self.slice_mut();
-        let mut carry = false;
+        // If `idx` is out of range, any non-zero value is lost
+        let mut carry = val != Self::Bit::zero();
 
         while let Some(loc) = slice.get_mut(idx) {
             let (new, new_carry) = loc.overflowing_add(val);
-- 
2.43.0


From 395fa50c10c975996f46d1049bd26ebfe6ffb426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:32 +0000
Subject: [PATCH 13/59] fix: overflowing slice add must report overflow when
 the right side is longer

---
 crates/bits/src/algos/element/add.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/bits/src/algos/element/add.rs b/crates/bits/src/algos/element/add.rs
index d592ff8..aa771d6 100644
--- a/crates/bits/src/algos/element/add.rs
+++ b/crates/bits/src/algos/element/add.rs
@@ -47,6 +47,8 @@ pub trait ElementAdd: BitSliceExt {
         let one = Self::Bit::one();
 
         let mut carry = false;
+        // Whether any non-zero element didn't fit in `left`
+        let mut lost = false;
 
         for idx in 0..len {
             let l = left.get_opt(idx).unwrap_or(zero);
@@ -61,10 +63,12 @@ pub trait ElementAdd: BitSliceExt {
                 carry = true;
             }
 
-            left.set_ignore(idx, res);
+            if left.set_opt(idx, res).is_none() && res != zero {
+                lost = true;
+            }
         }
 
-        (left, carry)
+        (left, carry || lost)
     }
 
     /// Add two slices, implemented as checked element-wise add and carry
-- 
2.43.0


From 4e982c80d068a3d3c1622af72b1375750b166fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:32 +0000
Subject: [PATCH 14/59] fix: in-place bitwise add must not read past the end of
 its operands

---
 crates/bits/src/algos/bitwise/add.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/add.rs b/crates/bits/src/algos/bitwise/add.rs
index 69ec20d..a6d0fdc 100644
--- a/crates/bits/src/algos/bitwise/add.rs
+++ b/crates/bits/src/algos/bitwise/add.rs
@@ -59,9 +59,9 @@ pub trait BitwiseAdd: BitSliceExt {
         let bit_len = usize::max(left.bit_len(), right.bit_len());
 
         let mut carry = false;
-        for idx in 0..=bit_len {
-            let l = u8::from(left.get_bit(idx));
-            let r = u8::from(right.get_bit(idx));
+        for idx in 0..bit_len {
+            let l = u8::from(left.get_bit_opt(idx).unwrap_or(false));
+            let r = u8::from(right.get_bit_opt(idx).unwrap_or(false));
 
             let c = if carry {
                 carry = false;
@@ -85,7 +85,7 @@ pub trait BitwiseAdd: BitSliceExt {
                 _ => unsafe { unreachable_unchecked() },
             };
 
-            left.set_bit(idx, new);
+            left.set_bit_ignore(idx, new);
         }
 
         left
-- 
2.43.0


From 6be9691a1770a520221561a7d4f7f36779cdf215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:33 +0000
Subject: [PATCH 15/59] fix: set_push must extend far enough to hold the pushed
 index

---
 crates/bits/src/bit_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice.rs b/crates/bits/src/bit_slice.rs
index 63f3d97..92c8dcb 100644
--- a/crates/bits/src/bit_slice.rs
+++ b/crates/bits/src/bit_slice.rs
@@ -208,7 +208,7 @@ pub trait BitVecExt: BitSliceExt {
 
     /// Set a single value by index on this slice, extending it if the index is out of range
     fn set_push(&mut self, idx: usize, val: Self::Bit) {
-        self.extend(idx, Self::Bit::zero());
+        self.extend(idx + 1, Self::Bit::zero());
         self.set_ignore(idx, val);
     }
 
-- 
2.43.0


From e69fb59215410120598025daf87722b8edd77ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:33 +0000
Subject: [PATCH 16/59] fix: bit iterator length must not underflow past the
 first element

---
 crates/bits/src/bit_slice/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/bits/src/bit_slice/iter.rs b/crates/bits/src/bit_slice/iter.rs
index aa3bac8..08bcb42 100644
--- a/crates/bits/src/bit_slice/iter.rs
+++ b/crates/bits/src/bit_slice/iter.rs
@@ -54,7 +54,7 @@ where
         let remaining = self.iter.len();
         I::BIT_LEN * remaining
             + if self.cur.is_some() {
-                I::BIT_LEN - self.idx
+                I::BIT_LEN - self.idx % I::BIT_LEN
             } else {
                 0
             }
-- 
2.43.0


From a1f95a4eaffd71a725283bc29899e49ca9ae11c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:34 +0000
Subject: [PATCH 17/59] fix: arr_to_int must accept zero elements past the
 width of the integer

---
 crates/bits/src/utils.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/bits/src/utils.rs b/crates/bits/src/utils.rs
index 6aca128..89bf0d0 100644
--- a/crates/bits/src/utils.rs
+++ b/crates/bits/src/utils.rs
@@ -70,6 +70,9 @@ pub fn arr_to_int<
     let bit_len = size_of::<T>() * 8;
     let mut out = U::zero();
     for (idx, &i) in arr.iter().enumerate() {
+        if i.is_zero() {
+            continue;
+        }
         let t = U::from_checked(i)?;
         out += t.checked_shl(idx * bit_len)?;
     }
-- 
2.43.0


From f8fc3e07deba2494112e8c259977fa609eecce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 18/59] fix: slice division must not panic when the divisor is
 the longer slice

---
 crates/bits/src/algos/bitwise/div.rs | 10 +++++-----
 crates/bits/src/algos/element/div.rs |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index 99f98ec..d03ebac 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -19,7 +19,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(&mut remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(&remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(&mut remainder, div);
@@ -42,13 +42,13 @@ pub trait BitwiseDiv: BitSliceExt {
         let bit_len = usize::max(num.bit_len(), div.bit_len());
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(remainder, div);
-                num.set_bit(idx, true);
+                num.set_bit_ignore(idx, true);
             } else {
-                num.set_bit(idx, false);
+                num.set_bit_ignore(idx, false);
             }
         }
 
@@ -97,7 +97,7 @@ pub trait BitwiseDiv: BitSliceExt {
 
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
-            remainder.set_bit(0, num.get_bit(idx));
+            remainder.set_bit(0, num.get_bit_opt(idx).unwrap_or(false));
             if ElementCmp::cmp(remainder, div).is_ge() {
                 // Subtract will never overflow
                 ElementSub::sub_wrapping(remainder, div);
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index cddce40..52952de 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -28,7 +28,7 @@ pub trait ElementDiv: BitSliceExt {
             // Shift left by 1 element
             ElementShl::shl_wrapping(&mut remainder, Self::Bit::BIT_LEN);
             // Set new element to left[idx]
-            remainder.set(0, left.get(idx));
+            remainder.set(0, left.get_opt(idx).unwrap_or(Self::Bit::zero()));
 
             // Mathy stuff:
             //   The remainder will *always* be no more than one digit greater than the divisor
-- 
2.43.0


From 834ab48a6876dde8f6101328d2415ebe08da3cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:56 +0000
Subject: [PATCH 19/59] fix: slice division by zero must panic (None when
 checked) instead of returning garbage or hanging

---
 crates/bits/src/algos/bitwise/div.rs | 19 +++++++++++++++++++
 crates/bits/src/algos/element/div.rs |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/crates/bits/src/algos/bitwise/div.rs b/crates/bits/src/algos/bitwise/div.rs
index d03ebac..5cb1699 100644
--- a/crates/bits/src/algos/bitwise/div.rs
+++ b/crates/bits/src/algos/bitwise/div.rs
@@ -4,6 +4,11 @@ use crate::bit_slice::BitSliceExt;
 use alloc::{vec, vec::Vec};
 use numeric_traits::identity::Zero;
 
+/// Whether every element of a slice is zero
+fn is_zero<T: ?Sized + BitSliceExt>(slice: &T) -> bool {
+    slice.slice().iter().all(Zero::is_zero)
+}
+
 pub trait BitwiseDiv: BitSliceExt {
     #[cfg(feature = "std")]
     /// Divide two slices, implemented as bitwise long division
@@ -11,6 +16,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let len = usize::max(num.len(), div.len());
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
@@ -39,6 +46,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let bit_len = usize::max(num.bit_len(), div.bit_len());
         for idx in (0..bit_len).rev() {
             ElementShl::shl_wrapping(remainder, 1);
@@ -64,6 +73,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
+
         let (out, carry) = BitwiseDiv::div_long_overflowing(left, right, scratch);
         if carry {
             None
@@ -93,6 +106,8 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(!is_zero(div), "attempt to divide by zero");
+
         let bit_len = usize::max(num.bit_len(), div.bit_len());
 
         for idx in (0..bit_len).rev() {
@@ -117,6 +132,10 @@ pub trait BitwiseDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        if is_zero(right) {
+            return None;
+        }
+
         let (out, carry) = BitwiseDiv::rem_long_overflowing(left, right, scratch);
         if carry {
             None
diff --git a/crates/bits/src/algos/element/div.rs b/crates/bits/src/algos/element/div.rs
index 52952de..9dad0af 100644
--- a/crates/bits/src/algos/element/div.rs
+++ b/crates/bits/src/algos/element/div.rs
@@ -17,6 +17,11 @@ pub trait ElementDiv: BitSliceExt {
     where
         T: ?Sized + BitSliceExt<Bit = Self::Bit>,
     {
+        assert!(
+            !right.slice().iter().all(Zero::is_zero),
+            "attempt to divide by zero"
+        );
+
         let len = usize::max(left.len(), right.len());
 
         let mut quotient = vec![Self::Bit::zero(); len];
-- 
2.43.0


From 4c85c03b7b7d684ef4b612fd6199971dd53611a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:28 +0000
Subject: [PATCH 20/59] fix: checked conversion from U<N> to a smaller
 primitive must not index out of bounds

---
 crates/ints/src/u.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 75baea3..a048f00 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -574,7 +574,7 @@ macro_rules! impl_unsign_cast {
                     Some(<$num>::from_le_bytes(arr))
                 } else {
                     for i in 0..N {
-                        if i <= SIZE {
+                        if i < SIZE {
                             arr[i] = val.0[i];
                         } else {
                             if val.0[i] != 0 {
-- 
2.43.0


From f2bc94fb8a88fda427f12f1721ab1d0f8e9372f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:28 +0000
Subject: [PATCH 21/59] fix: truncating conversion from U<N> to a smaller
 primitive must keep the low bytes, not panic

---
 crates/ints/src/u.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index a048f00..9237027 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -597,7 +597,7 @@ macro_rules! impl_unsign_cast {
             fn truncate_from(val: U<N>) -> Self {
                 const SIZE: usize = size_of::<$num>();
                 let mut arr = [0; SIZE];
-                for i in 0..N {
+                for i in 0..usize::min(N, SIZE) {
                     arr[i] = val.0[i];
                 }
                 <$num>::from_le_bytes(arr)
-- 
2.43.0


From f6b0f061d711d64f7459585a78cb69f3d6f98c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:29 +0000
Subject: [PATCH 22/59] fix: checked conversion from primitives to U<N> must
 range check and not index out of bounds

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 9237027..05c7535 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -610,13 +610,13 @@ macro_rules! impl_unsign_cast {
                 let bytes = val.to_le_bytes();
                 let mut arr = [0; N];
                 if N >= SIZE {
-                    for i in 0..N {
+                    for i in 0..SIZE {
                         arr[i] = bytes[i];
                     }
                     Some(U::from_le_bytes(arr))
                 } else {
-                    for i in 0..N {
-                        if i <= N {
+                    for i in 0..SIZE {
+                        if i < N {
                             arr[i] = bytes[i];
                         } else {
                             if bytes[i] != 0 {
-- 
2.43.0


From b3e52573b62a348eb584077c6f9bbab33ba7eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:29 +0000
Subject: [PATCH 23/59] fix: U<N> raised to the power zero is one, also for
 zero

---
 crates/ints/src/u.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/ints/src/u.rs b/crates/ints/src/u.rs
index 05c7535..c36a40b 100644
--- a/crates/ints/src/u.rs
+++ b/crates/ints/src/u.rs
@@ -430,10 +430,10 @@ impl<const N: usize> Pow for U<N> {
     type Output = Self;
 
     fn pow(self, rhs: Self) -> Self::Output {
-        if self.is_zero() || self.is_one() {
-            self
-        } else if rhs.is_zero() {
+        if rhs.is_zero() {
             Self::one()
+        } else if self.is_zero() || self.is_one() {
+            self
         } else {
             // Any value greater than N will definitely overflow, and N is capped by usize
             let val: usize = usize::from_checked(rhs).unwrap();
-- 
2.43.0


From eb4b4f5e100810d9a72b1a79d04f54134eebd867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:30 +0000
Subject: [PATCH 24/59] fix: I<N> ordering must compare the most significant
 byte first

---
 crates/ints/src/i.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index c9c2aa2..4dd7ae0 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -5,7 +5,7 @@
 use core::array;
 use core::cmp::Ordering;
 use core::ops::{Add, BitAnd, BitOr, BitXor, Div, Mul, Neg, Not, Rem, Shl, Shr, Sub};
-use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementMul, ElementSub};
+use numeric_bits::algos::{BitwiseDiv, ElementAdd, ElementCmp, ElementMul, ElementSub};
 use numeric_static_iter::{IntoStaticIter, StaticIter};
 use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Signed};
 use numeric_traits::identity::{One, Zero};
@@ -216,7 +216,7 @@ impl<const N: usize> PartialOrd for I<N> {
 impl<const N: usize> Ord for I<N> {
     fn cmp(&self, other: &Self) -> Ordering {
         match self.is_negative().cmp(&other.is_negative()) {
-            Ordering::Equal => self.0.cmp(&other.0),
+            Ordering::Equal => ElementCmp::cmp(&self.0, &other.0),
             ord => ord.reverse(),
         }
     }
-- 
2.43.0


From 4d29a3eb7c62093ee45894f530ec2aa4b816fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:30 +0000
Subject: [PATCH 25/59] fix: I<N>::abs must negate in two's complement, not
 just clear the sign bit

---
 crates/ints/src/i.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index 4dd7ae0..a22760d 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -309,10 +309,12 @@ impl<const N: usize> Pow for I<N> {
 impl<const N: usize> Numeric for I<N> {}
 
 impl<const N: usize> Signed for I<N> {
-    fn abs(mut self) -> Self {
-        let last = self.0.last_mut().unwrap();
-        *last &= 0x7F;
-        self
+    fn abs(self) -> Self {
+        if self.is_negative() {
+            -self
+        } else {
+            self
+        }
     }
 
     fn is_positive(&self) -> bool {
-- 
2.43.0


From a3592e50e0a415ced91ff8c6a075ac74c33ce89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:30 +0000
Subject: [PATCH 26/59] fix: I<N> remainder takes the sign of the dividend

---
 crates/ints/src/i.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/i.rs b/crates/ints/src/i.rs
index a22760d..f10d344 100644
--- a/crates/ints/src/i.rs
+++ b/crates/ints/src/i.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Rem for I<N> {
     type Output = Self;
 
     fn rem(mut self, mut rhs: Self) -> Self::Output {
-        let neg = self.is_negative() != rhs.is_negative();
+        let neg = self.is_negative();
         self = self.abs();
         rhs = rhs.abs();
         BitwiseDiv::rem_long_wrapping(&mut self.0, &rhs.0, &mut [0; N]);
-- 
2.43.0


From 28aff06fa812a4d780780c1289c186c72f8d693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:18 +0000
Subject: [PATCH 27/59] fix: negating BigInt zero must not create a negative
 zero

---
 crates/ints/src/big_int.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 15baf24..1f54a84 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -545,7 +545,10 @@ impl ops::Neg for BigInt {
     type Output = BigInt;
 
     fn neg(mut self) -> Self::Output {
-        self.0 = self.0.invert_neg();
+        // Zero has no sign
+        if !self.is_zero() {
+            self.0 = self.0.invert_neg();
+        }
         self
     }
 }
@@ -554,9 +557,7 @@ impl ops::Neg for &BigInt {
     type Output = BigInt;
 
     fn neg(self) -> Self::Output {
-        let mut out = self.clone();
-        out.0 = out.0.invert_neg();
-        out
+        -self.clone()
     }
 }
 
-- 
2.43.0


From 61cc577bef1b32fba9b54af4b439b0c58041f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:19 +0000
Subject: [PATCH 28/59] fix: BigInt ordering must compare the most significant
 element first

---
 crates/ints/src/big_int.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 1f54a84..0b915c0 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -381,7 +381,8 @@ impl Ord for BigInt {
                 usize::cmp(&this.len(), &other.len())
             } else {
                 this.iter()
-                    .zip(other.iter())
+                    .rev()
+                    .zip(other.iter().rev())
                     .find_map(|(l, r)| match l.cmp(r) {
                         Ordering::Equal => None,
                         other => Some(other),
-- 
2.43.0


From 79ac0e8af6ec80cbfee28fc0ea9d1cd35989d20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:19 +0000
Subject: [PATCH 29/59] fix: BigInt remainder takes the sign of the dividend

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 0b915c0..c04eab9 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -491,7 +491,7 @@ impl_op!(rem(self, rhs) => {
     let out = BigInt::with_slices(self, rhs, |this, other| {
         BitwiseDiv::div_long(this, other).1
     });
-    BigInt::new_slice(out, self.is_negative() != rhs.is_negative())
+    BigInt::new_slice(out, self.is_negative())
 });
 
 impl_op!(shl(self, rhs) => {
-- 
2.43.0


From 18c5bbeee3ae92e7ab06f622eec8bd77be855f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:19 +0000
Subject: [PATCH 30/59] fix: negative BigInt values must print their digits

---
 crates/ints/src/big_int.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index c04eab9..4678487 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -209,7 +209,7 @@ impl BigInt {
         // This is the simplest way - mod base for digit, div base for next digit
         // It isn't super fast though, so there are probably optimization improvements
         let mut digits = Vec::new();
-        let mut scratch = self.clone();
+        let mut scratch = self.clone().abs();
 
         while scratch > 0 {
             let digit = u8::from_checked(scratch.clone() % base)
-- 
2.43.0


From 69897254baedf2df3ef9a449b78bc15d9031119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:20 +0000
Subject: [PATCH 31/59] fix: BigInt to signed primitive conversion must keep
 the sign and accept MIN

---
 crates/ints/src/big_int/macros.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f258fe9..4dbd730 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -88,7 +88,15 @@ macro_rules! impl_for_int {
                 } else if bi < &BigInt::from(Self::MIN) {
                     Err(OutOfRangeError::below())
                 } else {
-                    bi.with_slice(|s| arr_to_int(s))
+                    // In range, so the magnitude always fits the unsigned type
+                    bi.with_slice(|s| arr_to_int::<usize, $unsigned>(s))
+                        .map(|mag| {
+                            if bi.is_negative() {
+                                (mag as $signed).wrapping_neg()
+                            } else {
+                                mag as $signed
+                            }
+                        })
                         .ok_or_else(|| OutOfRangeError::above())
                 }
             }
-- 
2.43.0


From f063f37d9a8e9b4c2d06c10c5bb936a985f6b5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:20 +0000
Subject: [PATCH 32/59] fix: truncating BigInt conversions must keep the low
 bits

---
 crates/ints/src/big_int/macros.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 4dbd730..5502ea7 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -121,15 +121,23 @@ macro_rules! impl_for_int {
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $unsigned {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s))
-                    .unwrap_or(<$unsigned>::MAX)
+                let low = val.with_slice(|s| {
+                    s.iter()
+                        .zip((0..<$unsigned>::BITS).step_by(usize::BITS as usize))
+                        .fold(0, |acc, (&val, shift)| acc | (val as $unsigned) << shift)
+                });
+                if val.is_negative() {
+                    low.wrapping_neg()
+                } else {
+                    low
+                }
             }
         }
 
         impl numeric_traits::cast::FromTruncating<BigInt> for $signed {
             fn truncate_from(val: BigInt) -> Self {
-                val.with_slice(|s| arr_to_int(s)).unwrap_or(<$signed>::MAX)
-                    * if val.is_negative() { -1 } else { 1 }
+                <$unsigned as numeric_traits::cast::FromTruncating<BigInt>>::truncate_from(val)
+                    as $signed
             }
         }
 
-- 
2.43.0


From 52d0e114a79e11c98748854e42e99bb1c54fcb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:21 +0000
Subject: [PATCH 33/59] fix: comparing BigInt with the minimum signed value
 must not overflow

---
 crates/ints/src/big_int/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index 5502ea7..f0bdb68 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -180,10 +180,10 @@ macro_rules! impl_for_int {
                 if self.is_negative() != other.is_negative() {
                     return false;
                 }
-                let other = other.abs();
+                let other = other.unsigned_abs();
 
                 self.with_slice(|this| {
-                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other as $unsigned);
+                    let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(other);
                     this == IntSlice::shrink(&arr as &[_])
                 })
             }
-- 
2.43.0


From 3918751fd1dd04226f85ced1f1d1d04426160797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:21 +0000
Subject: [PATCH 34/59] fix: a negative BigInt never equals an unsigned value

---
 crates/ints/src/big_int/macros.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/ints/src/big_int/macros.rs b/crates/ints/src/big_int/macros.rs
index f0bdb68..05975b8 100644
--- a/crates/ints/src/big_int/macros.rs
+++ b/crates/ints/src/big_int/macros.rs
@@ -191,6 +191,9 @@ macro_rules! impl_for_int {
 
         impl PartialEq<$unsigned> for BigInt {
             fn eq(&self, other: &$unsigned) -> bool {
+                if self.is_negative() {
+                    return false;
+                }
                 self.with_slice(|this| {
                     let arr = int_to_arr::<_, _, { arr_size::<$unsigned>() }>(*other);
                     this == IntSlice::shrink(&arr as &[_])
-- 
2.43.0


From 468d1d443f29d9fb3761f254373e67ff0eba7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:22 +0000
Subject: [PATCH 35/59] fix: BigInt parsing must accept negative numbers

---
 crates/ints/src/big_int.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 4678487..dab1b72 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -661,12 +661,16 @@ impl FromStrRadix for BigInt {
     type Error = FromStrError;
 
     fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::Error> {
+        let (neg, digits) = match str.strip_prefix('-') {
+            Some(digits) if !digits.is_empty() => (true, digits),
+            _ => (false, str),
+        };
         let mut out = BigInt::zero();
-        for digit in str.chars() {
+        for digit in digits.chars() {
             let new_val = RadixChars::val_from_char(digit, radix)?;
             out = (out * radix) + new_val;
         }
-        Ok(out)
+        Ok(if neg { -out } else { out })
     }
 }
 
-- 
2.43.0


From 465cbcf75d3cf81127ee35c640e1d2992f131d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:22 +0000
Subject: [PATCH 36/59] fix: BigInt::approx_float must keep the sign and never
 produce NaN

---
 crates/ints/src/big_int.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index dab1b72..7af677e 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -8,7 +8,7 @@ use core::borrow::Borrow;
 use core::cmp::Ordering;
 use core::fmt::{Binary, Debug, Display, LowerHex, UpperHex, Write};
 use core::hint::unreachable_unchecked;
-use core::{fmt, mem, num, ops};
+use core::{fmt, mem, ops};
 use numeric_bits::algos::{
     BitwiseDiv, ElementAdd, ElementBitand, ElementBitor, ElementBitxor, ElementMul, ElementNot,
     ElementShl, ElementShr, ElementSub,
@@ -248,15 +248,15 @@ impl BigInt {
     pub fn approx_float(&self) -> f64 {
         const USIZE_MAX: f64 = usize::MAX as f64;
         self.with_slice(|vals| {
-            vals.iter()
-                .copied()
-                .enumerate()
-                .try_fold(0., |acc, (idx, val)| {
-                    let val = val as f64;
-                    let idx = i32::try_from(idx)?;
-                    Ok::<_, num::TryFromIntError>(val.mul_add(USIZE_MAX.powi(idx), acc))
-                })
-                .unwrap_or(f64::INFINITY)
+            let out = vals
+                .iter()
+                .rev()
+                .fold(0f64, |acc, &val| acc.mul_add(USIZE_MAX, val as f64));
+            if self.is_negative() {
+                -out
+            } else {
+                out
+            }
         })
     }
 }
-- 
2.43.0


From 934e1f66e556a2db9f9e5cdc7dc3332152e077cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:18 +0000
Subject: [PATCH 37/59] fix: interner must find an existing value behind a dead
 slot instead of duplicating it

---
 crates/utils/src/intern.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 3b02b53..39966ae 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -94,6 +94,7 @@ where
         U: ?Sized + PartialEq,
         T: Borrow<U>,
     {
+        let mut dead = Find::None;
         for (idx, i) in list.iter().enumerate() {
             for (idx2, i) in i.iter().enumerate() {
                 // This intentionally allows reviving dead slots - saves work if you're rapidly
@@ -101,12 +102,13 @@ where
                 let count = i.refs.load(Ordering::Acquire);
                 if i.val_opt().is_some_and(|cur_val| val == cur_val.borrow()) {
                     return Find::Exists((idx, idx2));
-                } else if count == 0 {
-                    return Find::Dead((idx, idx2));
+                } else if count == 0 && matches!(dead, Find::None) {
+                    // Keep looking, the value may still exist in a later slot
+                    dead = Find::Dead((idx, idx2));
                 }
             }
         }
-        Find::None
+        dead
     }
 
     #[inline]
-- 
2.43.0


From 326e2ecbf68aa0f06e4a4327b639fbe96ce38e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:18 +0000
Subject: [PATCH 38/59] fix: concurrent interner insertion must not race with
 lookups and revivals of slots

---
 crates/utils/src/intern.rs | 48 +++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 39966ae..660fcd8 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -1,7 +1,7 @@
 use core::borrow::Borrow;
 use core::cell::UnsafeCell;
 use core::mem;
-use core::sync::atomic::{AtomicUsize, Ordering};
+use core::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
 
 use crate::linked::UnsyncLinked;
 use crate::static_assert;
@@ -68,6 +68,29 @@ impl InternId {
 /// An optimized container that supports cross-thread, lock-free-ish
 pub struct Interner<T> {
     inner: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>,
+    /// Held while looking up and writing slots, so only one thread does so at a time
+    adding: AtomicBool,
+}
+
+/// Guard for [`Interner::adding`], releases it on drop
+struct AddGuard<'a>(&'a AtomicBool);
+
+impl<'a> AddGuard<'a> {
+    fn new(adding: &'a AtomicBool) -> AddGuard<'a> {
+        while adding
+            .compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed)
+            .is_err()
+        {
+            core::hint::spin_loop();
+        }
+        AddGuard(adding)
+    }
+}
+
+impl Drop for AddGuard<'_> {
+    fn drop(&mut self) {
+        self.0.store(false, Ordering::Release);
+    }
 }
 
 impl<T> Interner<T>
@@ -78,6 +101,7 @@ where
     pub const fn new() -> Interner<T> {
         Interner {
             inner: UnsyncLinked::new(),
+            adding: AtomicBool::new(false),
         }
     }
 
@@ -86,7 +110,10 @@ where
         for _ in 0..((capacity + CHUNK_SIZE - 1) / 32) {
             list.push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
         }
-        Interner { inner: list }
+        Interner {
+            inner: list,
+            adding: AtomicBool::new(false),
+        }
     }
 
     fn find<U>(list: &UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, val: &U) -> Find<(usize, usize)>
@@ -139,32 +166,27 @@ where
         T: Borrow<V>,
         V: ?Sized + PartialEq,
     {
+        let _guard = AddGuard::new(&self.adding);
         let find = Self::find(&self.inner, val.borrow());
         InternId::from_usize(match find {
             Find::Exists((loc1, loc2)) => {
                 Self::incr_inner(&self.inner[loc1][loc2]);
                 loc1 * 32 + loc2
             }
-            // This can't race with below because they're guaranteed to act on different memory
-            // locations. But maybe... it could race with itself?
             Find::Dead((loc1, loc2)) => {
-                Self::incr_inner(&self.inner[loc1][loc2]);
-                // TODO: This isn't actually sound - in multi-threaded environments this can
-                //       race with `find`.
-                //       We want to implement a scheme where `set` only occurs when inner is set
-                //       to 1, not before or after, and find doesn't get a ref till after set is
-                //       done.
-                // SAFETY: Slot is dead, we're making it live, we are the only ones with access
+                // SAFETY: Slot is dead, and only the thread holding the guard can read or revive
+                //         dead slots, so we are the only ones with access
                 unsafe { self.inner[loc1][loc2].set_val(val.into()) };
+                Self::incr_inner(&self.inner[loc1][loc2]);
                 loc1 * 32 + loc2
             }
             Find::None => {
                 let len = self
                     .inner
                     .push([(); CHUNK_SIZE].map(|_| Interned::new_uninit()));
-                Self::incr_inner(&self.inner[len - 1][0]);
                 // SAFETY: Slot is empty, we're making it live, we are the only ones with access
                 unsafe { self.inner[len - 1][0].set_val(val.into()) };
+                Self::incr_inner(&self.inner[len - 1][0]);
                 (len - 1) * 32
             }
         })
@@ -173,7 +195,7 @@ where
     pub fn try_get(&self, offset: InternId) -> Option<&T> {
         let (idx1, idx2) = Self::offset_to_idx(offset);
         let slot = &self.inner[idx1][idx2];
-        if slot.refs.load(Ordering::Relaxed) == 0 {
+        if slot.refs.load(Ordering::Acquire) == 0 {
             None
         } else {
             Some(slot.val())
-- 
2.43.0


From 8610c1b8e7ad855750d6366044659f5d046309ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:19 +0000
Subject: [PATCH 39/59] fix: an interner of non-thread-safe values must not be
 Send or Sync

---
 crates/utils/src/intern.rs | 4 ++++
 crates/utils/src/linked.rs | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/utils/src/intern.rs b/crates/utils/src/intern.rs
index 660fcd8..c82fc23 100644
--- a/crates/utils/src/intern.rs
+++ b/crates/utils/src/intern.rs
@@ -49,6 +49,10 @@ impl<T> Interned<T> {
     }
 }
 
+// SAFETY: The value is only written by the thread holding the interner's guard, while no other
+//         thread can access it
+unsafe impl<T: Send + Sync> Sync for Interned<T> {}
+
 #[derive(Clone, Debug, PartialEq)]
 #[repr(transparent)]
 pub struct InternId(usize);
diff --git a/crates/utils/src/linked.rs b/crates/utils/src/linked.rs
index 2313d8e..196cb2c 100644
--- a/crates/utils/src/linked.rs
+++ b/crates/utils/src/linked.rs
@@ -148,9 +148,9 @@ impl<T> Drop for UnsyncLinked<T> {
 }
 
 // SAFETY: UnsyncLinked uses atomic access internally
-unsafe impl<T> Send for UnsyncLinked<T> {}
+unsafe impl<T: Send> Send for UnsyncLinked<T> {}
 // SAFETY: UnsyncLinked uses atomic access internally
-unsafe impl<T> Sync for UnsyncLinked<T> {}
+unsafe impl<T: Send + Sync> Sync for UnsyncLinked<T> {}
 
 pub struct Iter<'a, T> {
     cur: &'a AtomicPtr<Node<T>>,
-- 
2.43.0


From 8891d06288abd869ac0e87003911209684632ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 40/59] fix: Fixed multiplication and division must rescale the
 result

---
 crates/reals/src/fixed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index d190148..61349d1 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -133,7 +133,7 @@ impl<T: Integral, const N: usize> Mul for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn mul(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 * rhs.0)
+        Fixed((self.0 * rhs.0) >> N)
     }
 }
 
@@ -141,7 +141,7 @@ impl<T: Integral, const N: usize> Div for Fixed<T, N> {
     type Output = Fixed<T, N>;
 
     fn div(self, rhs: Self) -> Self::Output {
-        Fixed(self.0 / rhs.0)
+        Fixed((self.0 << N) / rhs.0)
     }
 }
 
-- 
2.43.0


From 7dddbfcf6ce24512e306c2941478c73561c8b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 41/59] fix: Fixed::round must round to the nearest whole
 number

---
 crates/reals/src/fixed.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 61349d1..c408e68 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -242,14 +242,9 @@ impl<T: Integral, const N: usize> Real for Fixed<T, N> {
     }
 
     fn round(self) -> Self {
-        let half = Self::one() / (Self::one() + Self::one());
-        let f = self.clone().fract();
-        let f = if f >= Self::zero() {
-            f
-        } else {
-            Self::one() - f
-        };
-        if f > half {
+        // Distance above the next lower whole number, always in `0..1`
+        let f = self.clone() - self.clone().floor();
+        if f.clone() + f > Self::one() {
             self.ceil()
         } else {
             self.floor()
-- 
2.43.0


From d6ca78aa05f26b1e2a3fca943830a0382ee62cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 42/59] fix: Fixed must print leading fractional zeros, zero,
 and negative values

---
 crates/reals/src/fixed.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index c408e68..74b9cb3 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -59,6 +59,11 @@ where
             self.0.clone() * ten.clone().pow(T::truncate_from(N)) / two.pow(T::truncate_from(N));
         let mut idx = 0;
 
+        if whole < T::zero() {
+            f.write_str("-")?;
+            whole = T::zero() - whole;
+        }
+
         let mut buf = String::new();
         while whole > T::zero() {
             let digit = whole.clone() % ten.clone();
@@ -69,6 +74,11 @@ where
             whole = whole / ten.clone();
             idx += 1;
         }
+        // Leading zeros of the fractional part
+        while idx < N {
+            write!(buf, "0")?;
+            idx += 1;
+        }
         if idx == N {
             write!(buf, ".")?;
         }
-- 
2.43.0


From 362fb70272a1fddc44ce2f2a163ac4eea83dfe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:31 +0000
Subject: [PATCH 43/59] fix: Rat must reduce fractions where one part divides
 the other

---
 crates/reals/src/rat.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 597b3e9..2eeee71 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -54,11 +54,6 @@ impl<T: Integral> Rat<T> {
     {
         if num == T::zero() {
             Rat::zero()
-        } else if (num == T::one() && denom == T::one())
-            || num.clone() % denom.clone() == T::zero()
-            || denom.clone() % num.clone() == T::zero()
-        {
-            unsafe { Rat::new_unchecked(num, denom) }
         } else {
             let gcd = num.clone().gcd(denom.clone());
             unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
-- 
2.43.0


From 11054cd23d5d7286e0545bbf1690b80900357c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 44/59] fix: Rat must keep the sign in the numerator so equal
 values compare equal

---
 crates/reals/src/rat.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 2eeee71..f65592c 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -56,7 +56,13 @@ impl<T: Integral> Rat<T> {
             Rat::zero()
         } else {
             let gcd = num.clone().gcd(denom.clone());
-            unsafe { Rat::new_unchecked(num / gcd.clone(), denom / gcd) }
+            let (num, denom) = (num / gcd.clone(), denom / gcd);
+            // Only the numerator carries the sign
+            if denom < T::zero() {
+                unsafe { Rat::new_unchecked(T::zero() - num, T::zero() - denom) }
+            } else {
+                unsafe { Rat::new_unchecked(num, denom) }
+            }
         }
     }
 
-- 
2.43.0


From 36025bdd5fae420b3c256b195c5f4cd300dfa6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 45/59] fix: Rat::ceil must keep whole numbers and round away
 from zero

---
 crates/reals/src/rat.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index f65592c..82bc2a3 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -237,8 +237,16 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     }
 
     fn ceil(self) -> Self {
-        let diff = self.denom.clone() - (self.num.clone() % self.denom.clone());
-        Rat::new((self.num + diff) / self.denom, T::one()).unwrap()
+        let diff = self.num.clone() % self.denom.clone();
+        let div = self.num / self.denom;
+        let whole = if diff == T::zero() {
+            div
+        } else if diff > T::zero() {
+            div + T::one()
+        } else {
+            div - T::one()
+        };
+        Rat::new(whole, T::one()).unwrap()
     }
 
     fn round(self) -> Self {
-- 
2.43.0


From b15afb139f3e5c14a33b2fb10a8f809065b6baef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:32 +0000
Subject: [PATCH 46/59] fix: Rat::round must round negative values to the
 nearest whole number

---
 crates/reals/src/rat.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/crates/reals/src/rat.rs b/crates/reals/src/rat.rs
index 82bc2a3..46f5b98 100644
--- a/crates/reals/src/rat.rs
+++ b/crates/reals/src/rat.rs
@@ -252,17 +252,18 @@ impl<T: Integral + Gcd<Output = T>> Real for Rat<T> {
     fn round(self) -> Self {
         let two = T::one() + T::one();
         let diff = self.num.clone() % self.denom.clone();
-        // Check if remainder is more or less than half denom
-        let add = if diff > (self.denom.clone() / two) {
-            T::one()
-        } else {
-            T::zero()
-        };
+        let half = self.denom.clone() / two;
         // Integer division should be round-to-zero division
-        // TODO: This may be wrong for negatives? We probably want floor-division
         let div = self.num / self.denom;
-        // Floor div, add one if we should round up
-        Rat::new(div + add, T::one()).unwrap()
+        // Check if remainder is more or less than half denom, and move away from zero if more
+        let whole = if diff > half {
+            div + T::one()
+        } else if diff < T::zero() && T::zero() - diff > half {
+            div - T::one()
+        } else {
+            div
+        };
+        Rat::new(whole, T::one()).unwrap()
     }
 
     fn trunc(self) -> Self {
-- 
2.43.0


From 9924d9a28bebf743a1cb3c8e8951e66bcc9e923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:07 +0000
Subject: [PATCH 47/59] fix: matrix views must reject indices one past the last
 row or column

---
 crates/compounds/src/matrix/refs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/refs.rs b/crates/compounds/src/matrix/refs.rs
index 5855d1d..618e271 100644
--- a/crates/compounds/src/matrix/refs.rs
+++ b/crates/compounds/src/matrix/refs.rs
@@ -9,7 +9,7 @@ macro_rules! ref_common {
             type Output = T;
 
             fn index(&self, index: (usize, usize)) -> &Self::Output {
-                if index.0 > self.rows || index.1 > self.cols {
+                if index.0 >= self.rows || index.1 >= self.cols {
                     panic!(
                         "Index out of range for matrix of size {}x{}: ({},{})",
                         self.rows, self.cols, index.0, index.1
-- 
2.43.0


From c17ed7487a269a3ab6cc549cb934eed606913aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:07 +0000
Subject: [PATCH 48/59] fix: DynMatrix::new must not accept dimensions whose
 product overflows

---
 crates/compounds/src/matrix/dynamic.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 9c1739c..a4b9bfc 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -13,10 +13,9 @@ pub struct DynMatrix<T> {
 impl<T> DynMatrix<T> {
     pub fn new(data: Vec<T>, rows: usize, cols: usize) -> DynMatrix<T> {
         assert_eq!(
-            data.len(),
-            rows * cols,
-            "Invalid data length for DynMatrix. Expected length {} ({} by {}), got {}",
-            rows * cols,
+            Some(data.len()),
+            rows.checked_mul(cols),
+            "Invalid data length for DynMatrix. Expected length for {} by {}, got {}",
             rows,
             cols,
             data.len(),
-- 
2.43.0


From 9cd8ad33eb9aec973d81a5194aeaca73bcb8b0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:07 +0000
Subject: [PATCH 49/59] fix: DynMatrix indexing must reject columns past the
 last one

---
 crates/compounds/src/matrix/dynamic.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index a4b9bfc..76a56ec 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -40,6 +40,17 @@ impl<T> DynMatrix<T> {
         self.cols
     }
 
+    fn check_index(&self, index: (usize, usize)) {
+        assert!(
+            index.0 < self.rows && index.1 < self.cols,
+            "Index out of range for matrix of size {}x{}: ({},{})",
+            self.rows,
+            self.cols,
+            index.0,
+            index.1
+        );
+    }
+
     pub fn swap_rows(&mut self, a: usize, b: usize) {
         if a == b {
             return;
@@ -68,12 +79,14 @@ impl<T> Index<(usize, usize)> for DynMatrix<T> {
     type Output = T;
 
     fn index(&self, index: (usize, usize)) -> &Self::Output {
+        self.check_index(index);
         &self.data[index.0 * self.cols + index.1]
     }
 }
 
 impl<T> IndexMut<(usize, usize)> for DynMatrix<T> {
     fn index_mut(&mut self, index: (usize, usize)) -> &mut Self::Output {
+        self.check_index(index);
         &mut self.data[index.0 * self.cols + index.1]
     }
 }
-- 
2.43.0


From 59b936bbcb1c5cade799a7b277d036fa0db27c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:08 +0000
Subject: [PATCH 50/59] fix: row reduction must not swap rows and columns of
 non-square matrices

---
 crates/compounds/src/matrix/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/compounds/src/matrix/macros.rs b/crates/compounds/src/matrix/macros.rs
index d8c6f97..a01d1be 100644
--- a/crates/compounds/src/matrix/macros.rs
+++ b/crates/compounds/src/matrix/macros.rs
@@ -1,5 +1,5 @@
 macro_rules! gauss_elim {
-    ($self:ident, $cols:expr, $rows:expr, $data:expr) => {
+    ($self:ident, $rows:expr, $cols:expr, $data:expr) => {
         /// Uses Gaussian Elimination to put the matrix in triangular row-echelon form,
         /// and returns the new matrix and the product of the scalars by which the determinant was
         /// multiplied to produce the result.
-- 
2.43.0


From c7b3318085709f7077a5b3ee5f6f778cc66d23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:08 +0000
Subject: [PATCH 51/59] fix: dividing a Complex by a scalar must not overflow
 by squaring the divisor

---
 crates/compounds/src/complex.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/compounds/src/complex.rs b/crates/compounds/src/complex.rs
index 26d354e..790fafc 100644
--- a/crates/compounds/src/complex.rs
+++ b/crates/compounds/src/complex.rs
@@ -143,11 +143,7 @@ where
     type Output = Complex<T>;
 
     fn div(self, rhs: T) -> Self::Output {
-        let divisor = rhs.clone() * rhs.clone();
-        Complex::new(
-            (self.real.clone() * rhs.clone()) / divisor.clone(),
-            (self.imag * rhs) / divisor,
-        )
+        Complex::new(self.real / rhs.clone(), self.imag / rhs)
     }
 }
 
-- 
2.43.0


From c0794d7f2c0841b60ab04c438dfc59d58da47658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:08 +0000
Subject: [PATCH 52/59] fix: array iterator must drop the items it did not
 yield

---
 crates/static-iter/src/array.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/static-iter/src/array.rs b/crates/static-iter/src/array.rs
index 351ff01..9a1fcda 100644
--- a/crates/static-iter/src/array.rs
+++ b/crates/static-iter/src/array.rs
@@ -23,6 +23,8 @@ impl<'a, T, const N: usize> IntoStaticIter<N> for &'a [T; N] {
 
 pub struct IntoIter<T, const N: usize> {
     inner: [MaybeUninit<T>; N],
+    /// Index of the first item that hasn't been yielded yet
+    next: usize,
 }
 
 impl<T, const N: usize> IntoIter<T, N> {
@@ -31,7 +33,7 @@ impl<T, const N: usize> IntoIter<T, N> {
         // SAFETY: `[MaybeUninit<T>; N]` and `[T; N]` have the same layout
         let inner = unsafe { core::mem::transmute_copy(&arr) };
         core::mem::forget(arr);
-        IntoIter { inner }
+        IntoIter { inner, next: 0 }
     }
 }
 
@@ -40,10 +42,20 @@ impl<T, const N: usize> StaticIter<N> for IntoIter<T, N> {
 
     #[inline]
     unsafe fn idx(&mut self, idx: usize) -> Self::Item {
+        self.next = idx + 1;
         core::mem::replace(self.inner.get_unchecked_mut(idx), MaybeUninit::uninit()).assume_init()
     }
 }
 
+impl<T, const N: usize> Drop for IntoIter<T, N> {
+    fn drop(&mut self) {
+        for item in &mut self.inner[self.next..] {
+            // SAFETY: Items are yielded in order, so everything from `next` on is still initialized
+            unsafe { item.assume_init_drop() };
+        }
+    }
+}
+
 pub struct RefIter<'a, T, const N: usize> {
     inner: &'a [T; N],
 }
-- 
2.43.0


From fd15ede3e37ad673b9c3e199a319f50182f296dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:09 +0000
Subject: [PATCH 53/59] fix: collecting into an optional array must drop the
 items collected before a failure

---
 crates/static-iter/src/lib.rs | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/crates/static-iter/src/lib.rs b/crates/static-iter/src/lib.rs
index 94077b4..f483840 100644
--- a/crates/static-iter/src/lib.rs
+++ b/crates/static-iter/src/lib.rs
@@ -30,22 +30,44 @@ pub trait FromStaticIter<T, const N: usize>: Sized {
     }
 }
 
+/// An array that is filled in order, and drops the items written so far if it is never finished
+pub struct PartialArray<T, const N: usize> {
+    inner: [MaybeUninit<T>; N],
+    len: usize,
+}
+
+impl<T, const N: usize> Drop for PartialArray<T, N> {
+    fn drop(&mut self) {
+        for item in &mut self.inner[..self.len] {
+            // SAFETY: The first `len` items have been written
+            unsafe { item.assume_init_drop() };
+        }
+    }
+}
+
 impl<T, const N: usize> FromStaticIter<T, N> for [T; N] {
-    type Uninit = [MaybeUninit<T>; N];
+    type Uninit = PartialArray<T, N>;
     type Break = Infallible;
 
     fn uninit() -> Self::Uninit {
-        [const { MaybeUninit::uninit() }; N]
+        PartialArray {
+            inner: [const { MaybeUninit::uninit() }; N],
+            len: 0,
+        }
     }
 
     fn write(mut this: Self::Uninit, idx: usize, val: T) -> ControlFlow<Self::Break, Self::Uninit> {
-        this[idx].write(val);
+        this.inner[idx].write(val);
+        if idx == this.len {
+            this.len += 1;
+        }
         ControlFlow::Continue(this)
     }
 
     unsafe fn finish(this: ControlFlow<Self::Break, Self::Uninit>) -> Self {
         let ControlFlow::Continue(c) = this;
-        unsafe { mem::transmute_copy(&c) }
+        let c = mem::ManuallyDrop::new(c);
+        unsafe { mem::transmute_copy(&c.inner) }
     }
 
     fn from_static_iter(mut iter: impl StaticIter<N, Item = T>) -> Self {
-- 
2.43.0


From 1888801d747b68cfdd0e76128e7d8a826f80c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:01 +0000
Subject: [PATCH 54/59] fix: in-place slice right shift must clear the bits
 shifted out of the top element

---
 crates/bits/src/algos/element/shr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/bits/src/algos/element/shr.rs b/crates/bits/src/algos/element/shr.rs
index 1003a86..2108db4 100644
--- a/crates/bits/src/algos/element/shr.rs
+++ b/crates/bits/src/algos/element/shr.rs
@@ -58,7 +58,9 @@ pub trait ElementShr: BitSliceExt {
             }
 
             if let Some(idx) = usize::checked_sub(idx + 1, arr_shift) {
-                let low = (left.get_opt(idx).unwrap_or(zero) & elem_mask) | (low & !elem_mask);
+                // The existing bits must not be kept: they are the ones being shifted. `high` is
+                // filled in afterwards, from the next element.
+                let low = low & !elem_mask;
 
                 left.set_ignore(idx, low);
             }
-- 
2.43.0


From 90176b09fc5201fd7038eb80f2226cef2ad65abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:08 +0000
Subject: [PATCH 55/59] fix: saturating isize to a narrower signed integer must
 clamp, not truncate

---
 crates/traits/src/__impl.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/traits/src/__impl.rs b/crates/traits/src/__impl.rs
index 3e8a40f..e812afb 100644
--- a/crates/traits/src/__impl.rs
+++ b/crates/traits/src/__impl.rs
@@ -881,8 +881,8 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
@@ -914,15 +914,15 @@ mod _isize {
         i16,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i32,
         u_less = [],
         u_greater_eq = [usize],
-        s_less_eq = [isize],
-        s_greater = [],
+        s_less_eq = [],
+        s_greater = [isize],
     );
     saturate_sint_impl!(
         i64,
-- 
2.43.0


From edd5615352997a5874c3c42e408ea790d9977557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:02 +0000
Subject: [PATCH 56/59] fix: DynMatrix::swap_rows must refuse rows that are out
 of range

---
 crates/compounds/src/matrix/dynamic.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/compounds/src/matrix/dynamic.rs b/crates/compounds/src/matrix/dynamic.rs
index 76a56ec..38b900f 100644
--- a/crates/compounds/src/matrix/dynamic.rs
+++ b/crates/compounds/src/matrix/dynamic.rs
@@ -52,6 +52,13 @@ impl<T> DynMatrix<T> {
     }
 
     pub fn swap_rows(&mut self, a: usize, b: usize) {
+        assert!(
+            a < self.rows && b < self.rows,
+            "Row out of range for matrix of size {}x{}: {}",
+            self.rows,
+            self.cols,
+            usize::max(a, b)
+        );
         if a == b {
             return;
         }
-- 
2.43.0


From 2af9c00914abaa846a5e26bf2affe2a87f5a0b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:16 +0000
Subject: [PATCH 57/59] fix: approx_float scales by the digit base also where
 usize is 32 bits

---
 crates/ints/src/big_int.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 7af677e..050de48 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -246,12 +246,13 @@ impl BigInt {
     ///
     /// If the value is large, this may return [`f64::INFINITY`] or [`f64::NEG_INFINITY`].
     pub fn approx_float(&self) -> f64 {
-        const USIZE_MAX: f64 = usize::MAX as f64;
+        // One more than the largest digit: exact in an f64 whatever the width of usize
+        const BASE: f64 = usize::MAX as f64 + 1.0;
         self.with_slice(|vals| {
             let out = vals
                 .iter()
                 .rev()
-                .fold(0f64, |acc, &val| acc.mul_add(USIZE_MAX, val as f64));
+                .fold(0f64, |acc, &val| acc.mul_add(BASE, val as f64));
             if self.is_negative() {
                 -out
             } else {
-- 
2.43.0


From baafd8357d0191450e05945c2f521fcc857e7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:58 +0000
Subject: [PATCH 58/59] fix: Fixed: tell whole values of unbounded integers
 from others

The mask was inverted at the width of the mask, so a whole value with
more digits than that lost its upper digits, and ceil added one to it.
---
 crates/reals/src/fixed.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/reals/src/fixed.rs b/crates/reals/src/fixed.rs
index 74b9cb3..d6fb11d 100644
--- a/crates/reals/src/fixed.rs
+++ b/crates/reals/src/fixed.rs
@@ -10,10 +10,6 @@ use numeric_traits::class::{Bounded, BoundedSigned, Integral, Numeric, Real, Sig
 use numeric_traits::identity::{One, Zero};
 use numeric_traits::ops::Pow;
 
-fn mask<T: Integral, const N: usize>() -> T {
-    (T::one() << N) - T::one()
-}
-
 /// A fixed-precision value. Given a backing integer T, uses its first `N` bits as decimal
 /// precision. If `T` is bounded, this value will also be bounded.
 #[derive(Copy, Clone)]
@@ -33,7 +29,8 @@ impl<T: Integral, const N: usize> Fixed<T, N> {
     }
 
     fn is_whole(&self) -> bool {
-        self.0.clone() & !mask::<T, N>() == self.0
+        // Not with a mask: inverting one needs a fixed width
+        (self.0.clone() >> N) << N == self.0
     }
 }
 
-- 
2.43.0


From 11e23d42a7c92a57605ad8bf386c12449c83d269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:35 +0000
Subject: [PATCH 59/59] fix: an unusable radix is refused for empty text too

---
 crates/ints/src/big_int.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/ints/src/big_int.rs b/crates/ints/src/big_int.rs
index 050de48..4a49e05 100644
--- a/crates/ints/src/big_int.rs
+++ b/crates/ints/src/big_int.rs
@@ -662,6 +662,10 @@ impl FromStrRadix for BigInt {
     type Error = FromStrError;
 
     fn from_str_radix(str: &str, radix: u32) -> Result<Self, Self::Error> {
+        // Also when there are no digits to look at
+        if radix > 36 {
+            return Err(FromStrError::InvalidRadix(radix));
+        }
         let (neg, digits) = match str.strip_prefix('-') {
             Some(digits) if !digits.is_empty() => (true, digits),
             _ => (false, str),
-- 
2.43.0

