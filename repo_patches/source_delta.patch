From 7b38d9cf21fa953f66b14d3f296127edb11bacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:27 +0000
Subject: [PATCH 01/13] fix: order of the limbs of 128-bit scalars with 32-bit
 limbs

The second and fourth limb were swapped when a 128-bit scalar was
widened to a limb array, so signed add/sub/mul with u128 and i128
scalars of 33 bits or more were wrong.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bb87e7b..9460bfb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -127,9 +127,9 @@ pub(crate) const fn u128_to_limb_n<const N: usize>(value: u128) -> [u32; N] {
 
     let mut result = [0; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
@@ -157,9 +157,9 @@ pub(crate) const fn i128_to_limb_n<const N: usize>(value: i128) -> [u32; N] {
     let value = value as u128;
     let mut result = [sign_bit; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
-- 
2.43.0


From 485a0ee685bfa561709051dcc85215f729aff156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:27 +0000
Subject: [PATCH 02/13] fix: detect signed multiplication overflow just below
 the minimum

Only the most significant limb was compared to decide if the magnitude
of a negative product is exactly the minimum value, so products slightly
below the minimum were reported as not overflowing. A magnitude with the
sign bit set is the minimum exactly when its negation is negative.
---
 src/math/mul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/mul.rs b/src/math/mul.rs
index ae516ec..4097156 100644
--- a/src/math/mul.rs
+++ b/src/math/mul.rs
@@ -464,8 +464,8 @@ macro_rules! signed_define {
                 // wrap and it shouldn't be negative
                 // NOTE: We want to negate this, which will always work since
                 // `::MAX + 1` will wrap to min as expected.
-                let is_min = msl == <$s>::MIN;
                 r = negate!(r, M, $u);
+                let is_min = r_is_negative && (ne_index!(r[M - 1]) as $s) < 0;
                 (r, overflowed | (r_is_negative ^ is_min))
             }
         }
-- 
2.43.0


From c933986f5c1aab95d7a602f6f375d52668e694b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:27 +0000
Subject: [PATCH 03/13] fix: add back exactly the significant limbs of the
 divisor

The add-back step of the long division read one limb past the divisor,
which panics if the divisor uses all limbs and lost the final carry
otherwise.
---
 src/math/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/div.rs b/src/math/div.rs
index 2a78581..38a857b 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -401,7 +401,7 @@ fn div_rem_knuth<const M: usize, const N: usize>(
             // Add back one multiple of divisor
             i = 0;
             c = false;
-            while i < n + 1 {
+            while i < n {
                 let x = numerator.get(i + j);
                 let y = divisor[i];
                 let (res1, overflow1) = y.overflowing_add(c as ULimb);
-- 
2.43.0


From b7eee295a7402afc9baad061911df518af0fdf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:27 +0000
Subject: [PATCH 04/13] fix: overflow flag of signed carrying_add and
 borrowing_sub

Two overflows in opposite directions cancel each other for signed
integers, for example in MIN + -1 + 1.
---
 src/shared/bigint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/bigint.rs b/src/shared/bigint.rs
index b5b613f..3a5e08f 100644
--- a/src/shared/bigint.rs
+++ b/src/shared/bigint.rs
@@ -23,7 +23,7 @@ macro_rules! define {
         pub const fn carrying_add(self, rhs: Self, carry: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_add(rhs);
             let (c, d) = a.overflowing_add_ulimb(carry as $crate::ULimb);
-            (c, b | d)
+            (c, b ^ d)
         }
 
         /// Calculates `self` &minus; `rhs` &minus; `borrow` and returns a tuple
@@ -42,7 +42,7 @@ macro_rules! define {
         pub const fn borrowing_sub(self, rhs: Self, borrow: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_sub(rhs);
             let (c, d) = a.overflowing_sub_ulimb(borrow as $crate::ULimb);
-            (c, b | d)
+            (c, b ^ d)
         }
     };
 }
-- 
2.43.0


From b634f5c79f7b51a5524b9d6c0d43495367cdc53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 05/13] fix: accept the maximum value in the unsigned to signed
 conversion

TryFrom rejected exactly MAX, which is representable.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index e43bc7d..72afb4e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -132,7 +132,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn try_from(u: $u_t) -> Result<Self, $crate::TryFromIntError> {
-                if u < Self::MAX.as_unsigned() {
+                if u <= Self::MAX.as_unsigned() {
                     Ok(u.as_signed())
                 } else {
                     Err($crate::TryFromIntError {})
-- 
2.43.0


From d579b72411147a4b85c5f4258cab3bb76149fa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 06/13] fix: zero is not positive in num_traits::Signed

The trait documents is_positive to be false if the number is zero.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index 72afb4e..9324f9e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -169,7 +169,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn is_positive(&self) -> bool {
-                *self >= <Self as ::num_traits::ConstZero>::ZERO
+                *self > <Self as ::num_traits::ConstZero>::ZERO
             }
 
             #[inline(always)]
-- 
2.43.0


From 00b1acd75bf62b2515a18136b9693789161bc536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 07/13] fix: checked_ilog for values below the base and for
 base 1

The logarithm of a value in 1..base is 0, but None was returned and the
signed functions panicked. Base 1 was accepted and looped until the
result overflowed; it is documented to return None.
---
 src/uint/checked.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uint/checked.rs b/src/uint/checked.rs
index 27f454a..ede9b5d 100644
--- a/src/uint/checked.rs
+++ b/src/uint/checked.rs
@@ -54,9 +54,12 @@ macro_rules! define {
         #[inline(always)]
         pub fn checked_ilog(self, base: Self) -> Option<u32> {
             let zero = Self::from_u8(0);
-            if self == zero || base <= zero || self < base {
+            if self == zero || base <= Self::from_u8(1) {
                 return None;
             }
+            if self < base {
+                return Some(0);
+            }
 
             // Since base >= self, n >= 1
             let mut n = 1;
-- 
2.43.0


From d6154c2b6dae11a4a9788feb94a4d799a28edeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 08/13] fix: shift operators with 8-bit amounts and overflow
 checks

The number of bits was truncated to the type of the amount, so every
shift by a u8 or i8 panicked.
---
 src/shared/shift.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/shift.rs b/src/shared/shift.rs
index ae400c1..2390b6c 100644
--- a/src/shared/shift.rs
+++ b/src/shared/shift.rs
@@ -10,7 +10,7 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift left with overflow");
+                    assert!(other >= 0 && (other as u128) < Self::BITS as u128, "attempt to shift left with overflow");
                 }
                 self.wrapping_shl(other as u32)
             }
@@ -24,7 +24,7 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift right with overflow");
+                    assert!(other >= 0 && (other as u128) < Self::BITS as u128, "attempt to shift right with overflow");
                 }
                 self.wrapping_shr(other as u32)
             }
-- 
2.43.0


From f1448089abbc10750d733fbb903e5e0f2021ac9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 09/13] fix: overflow checks of shifts by the type itself

All other shift operators panic on amounts out of range if overflow
checks are on.
---
 src/shared/ops.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/shared/ops.rs b/src/shared/ops.rs
index c8e7ef7..102a9c4 100644
--- a/src/shared/ops.rs
+++ b/src/shared/ops.rs
@@ -153,6 +153,12 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    let is_overflow = is_above || is_below;
+                    assert!(!is_overflow, "attempt to shift left with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shl(shift)
             }
@@ -164,6 +170,12 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    let is_overflow = is_above || is_below;
+                    assert!(!is_overflow, "attempt to shift right with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shr(shift)
             }
-- 
2.43.0


From 0bcb076e2b7e29768d0b7897559f24d6ca99b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 10/13] fix: to_str_radix of negative integers

The digits were taken from the two's complement value instead of the
magnitude, so a single invalid digit was written after the sign.
---
 src/write.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index adf1ff9..912cde7 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -27,7 +27,7 @@ macro_rules! define {
         /// This function panics if `radix` is not in the range from 2 to 36,
         /// or the buffer isn't large enough to hold the significant digits.
         #[inline]
-        pub fn to_str_radix(mut self, buffer: &mut [u8], radix: u32) -> &[u8] {
+        pub fn to_str_radix(self, buffer: &mut [u8], radix: u32) -> &[u8] {
             if !(2..=36).contains(&radix) {
                 core::panic!("from_str_radix_int: must lie in the range `[2, 36]`");
             }
@@ -46,19 +46,24 @@ macro_rules! define {
             };
 
             // This isn't optimized at all.
+            let mut value = if is_negative {
+                self.wrapping_neg().as_unsigned()
+            } else {
+                self.as_unsigned()
+            };
             let mut rem: $crate::ULimb;
             let mut index = buffer.len();
-            let limit = Self::from_u32(radix);
-            while self.ge_const(limit) && index > start_index {
+            let limit = Self::from_u32(radix).as_unsigned();
+            while value.ge_const(limit) && index > start_index {
                 index -= 1;
-                (self, rem) = self.div_rem_ulimb(radix as $crate::ULimb);
+                (value, rem) = value.div_rem_ulimb(radix as $crate::ULimb);
                 buffer[index] = $crate::write::digit_to_char(rem as u32, radix);
             }
 
             // always have one trailing digit
-            assert!(self.lt_const(limit), "overflowed our buffer");
+            assert!(value.lt_const(limit), "overflowed our buffer");
             index -= 1;
-            buffer[index] = $crate::write::digit_to_char(self.get_limb(0) as u32, radix);
+            buffer[index] = $crate::write::digit_to_char(value.get_limb(0) as u32, radix);
 
             // write our negative sign, if required
             if is_negative {
-- 
2.43.0


From c23c9ab771a94111d7b10b50fa5183a60780be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 11/13] fix: reject a sign without digits in from_str_radix

As for the primitive integers, a lone sign is an invalid digit rather
than zero.
---
 src/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e3dcef8..af7c616 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -143,6 +143,9 @@ macro_rules! define {
                 Some(&b'-') => return Err(ParseIntError::new(IntErrorKind::NegOverflow)),
                 _ => false,
             };
+            if index == digits.len() {
+                return Err(ParseIntError::new(IntErrorKind::InvalidDigit));
+            }
             let overflow_digits = overflow_digits::<Self>(radix, $is_signed);
             let cannot_overflow = (digits.len() - index) <= overflow_digits;
 
-- 
2.43.0


From cafc4d488ed6a1c28288f36ac0f237fda99b231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:34:57 +0000
Subject: [PATCH 12/13] fix: panic on every division by zero

Zero divided by zero returned one, or zero for wide scalars, and larger
numerators raised a hardware exception in builds without debug
assertions.
---
 src/math/div.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/div.rs b/src/math/div.rs
index 38a857b..36735b0 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -46,6 +46,7 @@ pub fn full<const M: usize, const N: usize>(
     numerator: &[ULimb; M],
     divisor: &[ULimb; N],
 ) -> ([ULimb; M], [ULimb; N]) {
+    assert!(!is_zero(divisor, 0), "attempt to divide by zero");
     if N == 1 {
         return limb_padded(numerator, divisor[0]);
     }
@@ -72,6 +73,7 @@ pub fn full<const M: usize, const N: usize>(
 #[inline]
 #[must_use]
 pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb; M], UWide) {
+    assert!(divisor != 0, "attempt to divide by zero");
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
         // Can do as a scalar operation, simple.
@@ -104,6 +106,7 @@ pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb;
 #[allow(clippy::assertions_on_constants)]
 pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULimb; M], u128) {
     assert!(ULimb::BITS == 32);
+    assert!(divisor != 0, "attempt to divide by zero");
 
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
@@ -132,6 +135,7 @@ pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULi
 #[inline]
 #[must_use]
 pub fn limb<const M: usize>(numerator: &[ULimb; M], divisor: ULimb) -> ([ULimb; M], ULimb) {
+    assert!(divisor != 0, "attempt to divide by zero");
     // quick path optinmization for small values
     if M >= 2 && is_zero(numerator, 2) {
         let lo = numerator[0] as UWide;
-- 
2.43.0


From 33a212d4cbf0c12d6df04453f9e0d1cf1169b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:39 +0000
Subject: [PATCH 13/13] fix: signed addition and subtraction of 128-bit scalars
 with 32-bit limbs

The signed types passed operands of equal length to a function that
requires a shorter second operand, so every call panicked.
---
 src/int/limb.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/int/limb.rs b/src/int/limb.rs
index 7f7363f..d281b67 100644
--- a/src/int/limb.rs
+++ b/src/int/limb.rs
@@ -1001,7 +1001,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1022,7 +1022,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1044,7 +1044,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1066,7 +1066,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1652,7 +1652,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1673,7 +1673,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1694,7 +1694,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1715,7 +1715,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
-- 
2.43.0

