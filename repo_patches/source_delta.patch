From 0a9fa5fde36d125589e5335c4924c4c169150933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:35 +0000
Subject: [PATCH 01/16] fix: add the divisor back once in long division

When a quotient digit estimate is one too large, the divisor is added back to
the partial remainder. The loop ran over one limb too many. It read past the
end of a full-width divisor and panicked. For shorter divisors the final carry
was counted twice, which left a remainder larger than the divisor.
---
 src/math/div.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/div.rs b/src/math/div.rs
index 2a78581..38a857b 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -401,7 +401,7 @@ fn div_rem_knuth<const M: usize, const N: usize>(
             // Add back one multiple of divisor
             i = 0;
             c = false;
-            while i < n + 1 {
+            while i < n {
                 let x = numerator.get(i + j);
                 let y = divisor[i];
                 let (res1, overflow1) = y.overflowing_add(c as ULimb);
-- 
2.43.0


From 7c209580f095c75f7237d7728e0c994bc6c0e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:35 +0000
Subject: [PATCH 02/16] fix: panic on division by zero

Dividing zero by zero returned a number, and dividing a larger value by zero
without debug assertions executed a hardware division by zero, which kills the
process with SIGFPE. All of these now panic, as documented.
---
 src/math/div.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/math/div.rs b/src/math/div.rs
index 38a857b..fd8fe34 100644
--- a/src/math/div.rs
+++ b/src/math/div.rs
@@ -46,6 +46,7 @@ pub fn full<const M: usize, const N: usize>(
     numerator: &[ULimb; M],
     divisor: &[ULimb; N],
 ) -> ([ULimb; M], [ULimb; N]) {
+    assert!(!is_zero(divisor, 0), "attempt to divide by zero");
     if N == 1 {
         return limb_padded(numerator, divisor[0]);
     }
@@ -72,6 +73,8 @@ pub fn full<const M: usize, const N: usize>(
 #[inline]
 #[must_use]
 pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb; M], UWide) {
+    assert!(divisor != 0, "attempt to divide by zero");
+
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
         // Can do as a scalar operation, simple.
@@ -104,6 +107,7 @@ pub fn wide<const M: usize>(numerator: &[ULimb; M], divisor: UWide) -> ([ULimb;
 #[allow(clippy::assertions_on_constants)]
 pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULimb; M], u128) {
     assert!(ULimb::BITS == 32);
+    assert!(divisor != 0, "attempt to divide by zero");
 
     // NOTE: It's way better to keep this optimization outside the comparison.
     if M >= 2 && is_zero(numerator, 2) {
@@ -132,6 +136,8 @@ pub fn from_u128<const M: usize>(numerator: &[ULimb; M], divisor: u128) -> ([ULi
 #[inline]
 #[must_use]
 pub fn limb<const M: usize>(numerator: &[ULimb; M], divisor: ULimb) -> ([ULimb; M], ULimb) {
+    assert!(divisor != 0, "attempt to divide by zero");
+
     // quick path optinmization for small values
     if M >= 2 && is_zero(numerator, 2) {
         let lo = numerator[0] as UWide;
-- 
2.43.0


From d6c81ce7c4b6c2ff280a01f43c909d9f4a422684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:35 +0000
Subject: [PATCH 03/16] fix: panic when a signed Euclidean, floor or ceiling
 division overflows

`MIN / -1` is documented to panic for these methods whatever the overflow-checks
flag. The Euclidean methods wrapped without overflow checks, and the floor and
ceiling methods always wrapped.
---
 src/int/ops.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/int/ops.rs b/src/int/ops.rs
index b79d712..7ea1eac 100644
--- a/src/int/ops.rs
+++ b/src/int/ops.rs
@@ -88,13 +88,9 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_euclid(self, rhs: Self) -> Self {
-            if cfg!(not(have_overflow_checks)) {
-                self.wrapping_div_euclid(rhs)
-            } else {
-                match self.checked_div_euclid(rhs) {
-                    Some(v) => v,
-                    _ => core::panic!("attempt to divide with overflow"),
-                }
+            match self.checked_div_euclid(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
             }
         }
 
@@ -110,13 +106,9 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn rem_euclid(self, rhs: Self) -> Self {
-            if cfg!(not(have_overflow_checks)) {
-                self.wrapping_rem_euclid(rhs)
-            } else {
-                match self.checked_rem_euclid(rhs) {
-                    Some(v) => v,
-                    _ => core::panic!("attempt to divide with overflow"),
-                }
+            match self.checked_rem_euclid(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
             }
         }
 
@@ -129,7 +121,10 @@ macro_rules! define {
         #[inline]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_floor(self, rhs: Self) -> Self {
-            let (d, r) = self.wrapping_div_rem(rhs);
+            let (d, r) = match self.checked_div_rem(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
+            };
 
             // If the remainder is non-zero, we need to subtract one if the
             // signs of self and rhs differ, as this means we rounded upwards
@@ -154,7 +149,10 @@ macro_rules! define {
         #[inline]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub fn div_ceil(self, rhs: Self) -> Self {
-            let (d, r) = self.wrapping_div_rem(rhs);
+            let (d, r) = match self.checked_div_rem(rhs) {
+                Some(v) => v,
+                _ => core::panic!("attempt to divide with overflow"),
+            };
 
             // When remainder is non-zero we have a.div_ceil(b) == 1 + a.div_floor(b),
             // so we can re-use the algorithm from div_floor, just adding 1.
-- 
2.43.0


From 0878dd4ac94ff3e19b75ef5fae68c44be0997c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:35 +0000
Subject: [PATCH 04/16] fix: detect overflow of negative products just below
 the minimum

The magnitude of a negative product was compared with that of the minimum by
its most significant limb only, so products whose magnitude exceeded it in the
lower limbs were returned as positive numbers without reporting overflow.
---
 src/math/mul.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/mul.rs b/src/math/mul.rs
index ae516ec..d591d94 100644
--- a/src/math/mul.rs
+++ b/src/math/mul.rs
@@ -464,9 +464,9 @@ macro_rules! signed_define {
                 // wrap and it shouldn't be negative
                 // NOTE: We want to negate this, which will always work since
                 // `::MAX + 1` will wrap to min as expected.
-                let is_min = msl == <$s>::MIN;
                 r = negate!(r, M, $u);
-                (r, overflowed | (r_is_negative ^ is_min))
+                let is_negative = (ne_index!(r[M - 1]) as $s) < 0;
+                (r, overflowed | (r_is_negative & !is_negative))
             }
         }
 
-- 
2.43.0


From 7cc73420e7d9e53e22fa4554e0007b3e60e5e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:35 +0000
Subject: [PATCH 05/16] fix: report the carry of signed carrying_add and
 borrowing_sub correctly

For signed integers both steps can overflow in opposite directions, in which
case the final result is exact and no overflow should be reported. This matches
the primitive integers. Unsigned results are unchanged, since only one of the
steps can overflow.
---
 src/shared/bigint.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/bigint.rs b/src/shared/bigint.rs
index b5b613f..ed6845f 100644
--- a/src/shared/bigint.rs
+++ b/src/shared/bigint.rs
@@ -23,7 +23,7 @@ macro_rules! define {
         pub const fn carrying_add(self, rhs: Self, carry: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_add(rhs);
             let (c, d) = a.overflowing_add_ulimb(carry as $crate::ULimb);
-            (c, b | d)
+            (c, b != d)
         }
 
         /// Calculates `self` &minus; `rhs` &minus; `borrow` and returns a tuple
@@ -42,7 +42,7 @@ macro_rules! define {
         pub const fn borrowing_sub(self, rhs: Self, borrow: bool) -> (Self, bool) {
             let (a, b) = self.overflowing_sub(rhs);
             let (c, d) = a.overflowing_sub_ulimb(borrow as $crate::ULimb);
-            (c, b | d)
+            (c, b != d)
         }
     };
 }
-- 
2.43.0


From 27f07e1ab7b47f8c4f41f230e418049a36daa9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:35:35 +0000
Subject: [PATCH 06/16] fix: make abs follow the overflow-checks flag

Like the primitive integers, and like negation, `abs` of the minimum value now
wraps when overflow checks are off. It still panics when they are on.
---
 src/int/ops.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/int/ops.rs b/src/int/ops.rs
index 7ea1eac..3f3f61f 100644
--- a/src/int/ops.rs
+++ b/src/int/ops.rs
@@ -275,9 +275,13 @@ macro_rules! define {
         #[inline(always)]
         #[must_use = $crate::shared::docs::must_use_copy_doc!()]
         pub const fn abs(self) -> Self {
-            match self.checked_abs() {
-                Some(value) => value,
-                None => core::panic!("attempt to negate with overflow"),
+            if cfg!(not(have_overflow_checks)) {
+                self.wrapping_abs()
+            } else {
+                match self.checked_abs() {
+                    Some(value) => value,
+                    None => core::panic!("attempt to negate with overflow"),
+                }
             }
         }
 
-- 
2.43.0


From 937412aa41ea824cfe7c8e87164b06f7f230b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:32 +0000
Subject: [PATCH 07/16] fix: keep the limb order when widening 128-bit scalars
 to 32-bit limbs

The second and fourth limbs were swapped. This gave wrong products for signed
integers and 128-bit scalars with 32-bit limbs.
---
 src/util.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index bb87e7b..9460bfb 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -127,9 +127,9 @@ pub(crate) const fn u128_to_limb_n<const N: usize>(value: u128) -> [u32; N] {
 
     let mut result = [0; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
@@ -157,9 +157,9 @@ pub(crate) const fn i128_to_limb_n<const N: usize>(value: i128) -> [u32; N] {
     let value = value as u128;
     let mut result = [sign_bit; N];
     ne_index!(result[0] = value as u32);
-    ne_index!(result[1] = (value >> 96) as u32);
+    ne_index!(result[1] = (value >> 32) as u32);
     ne_index!(result[2] = (value >> 64) as u32);
-    ne_index!(result[3] = (value >> 32) as u32);
+    ne_index!(result[3] = (value >> 96) as u32);
 
     result
 }
-- 
2.43.0


From 5ef300f45520d95a8be968608983a166f27f57d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:32 +0000
Subject: [PATCH 08/16] fix: add and subtract 128-bit scalars to signed
 integers with 32-bit limbs

The scalar is extended to the full width, but was passed to the routine for a
narrower operand, which asserts that it is narrower and therefore always
panicked. That routine also reports the unsigned carry. Use the full-width
signed routines instead.
---
 src/int/limb.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/int/limb.rs b/src/int/limb.rs
index 7f7363f..d281b67 100644
--- a/src/int/limb.rs
+++ b/src/int/limb.rs
@@ -1001,7 +1001,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1022,7 +1022,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::add::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::add::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1044,7 +1044,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1066,7 +1066,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let limbs = $crate::math::sub::wrapping_mn(&lhs, &rhs);
+                let limbs = $crate::math::sub::wrapping_signed(&lhs, &rhs);
                 Self::from_ne_limbs(limbs)
             }
         }
@@ -1652,7 +1652,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1673,7 +1673,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::add::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::add::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1694,7 +1694,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::u128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
@@ -1715,7 +1715,7 @@ macro_rules! define {
                 // NOTE: This needs int expansion for correctness.
                 let lhs = self.to_ne_limbs();
                 let rhs = $crate::util::i128_to_limb_n::<{ Self::LIMBS }>(n);
-                let (limbs, overflowed) = $crate::math::sub::overflowing_mn(&lhs, &rhs);
+                let (limbs, overflowed) = $crate::math::sub::overflowing_signed(&lhs, &rhs);
                 (Self::from_ne_limbs(limbs), overflowed)
             }
         }
-- 
2.43.0


From 7da2acd9ac7c5feed8de0951cf5f7be157cef4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:30 +0000
Subject: [PATCH 09/16] fix: allow shifts by u8 and i8 when overflow checks are
 on

The width of the integer was converted to the type of the distance for the
range check. It does not fit 8 bits, so valid distances were rejected with a
panic.
---
 src/shared/shift.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/shift.rs b/src/shared/shift.rs
index ae400c1..2390b6c 100644
--- a/src/shared/shift.rs
+++ b/src/shared/shift.rs
@@ -10,7 +10,7 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift left with overflow");
+                    assert!(other >= 0 && (other as u128) < Self::BITS as u128, "attempt to shift left with overflow");
                 }
                 self.wrapping_shl(other as u32)
             }
@@ -24,7 +24,7 @@ macro_rules! define {
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: $t) -> Self::Output {
                 if cfg!(have_overflow_checks) {
-                    assert!(other < Self::BITS as $t && other >= 0, "attempt to shift right with overflow");
+                    assert!(other >= 0 && (other as u128) < Self::BITS as u128, "attempt to shift right with overflow");
                 }
                 self.wrapping_shr(other as u32)
             }
-- 
2.43.0


From a44e35b9928bc628e301c0d6aaa3949c52ab42ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:30 +0000
Subject: [PATCH 10/16] fix: check the distance when shifting by the same big
 integer type

Shifts by every other type panic on an out-of-range distance when overflow
checks are on. Shifts by the type itself silently wrapped.
---
 src/shared/ops.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/shared/ops.rs b/src/shared/ops.rs
index c8e7ef7..5e2d2d4 100644
--- a/src/shared/ops.rs
+++ b/src/shared/ops.rs
@@ -153,6 +153,11 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shl(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    assert!(!(is_above || is_below), "attempt to shift left with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shl(shift)
             }
@@ -164,6 +169,11 @@ macro_rules! traits {
             #[inline(always)]
             #[allow(clippy::suspicious_arithmetic_impl)]
             fn shr(self, other: Self) -> Self::Output {
+                if cfg!(have_overflow_checks) {
+                    let is_above = other.ge_const(Self::from_u32(Self::BITS));
+                    let is_below = other.lt_const(Self::from_u32(0));
+                    assert!(!(is_above || is_below), "attempt to shift right with overflow");
+                }
                 let shift = other.least_significant_limb() as u32 & u32::MAX;
                 self.wrapping_shr(shift)
             }
-- 
2.43.0


From d66cc4ab4cf7c3a43ed1d04f7f1339afdd66647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:10 +0000
Subject: [PATCH 11/16] fix: convert the largest signed value from unsigned

TryFrom rejected an unsigned value equal to the maximum of the signed type,
which is representable.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index e43bc7d..72afb4e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -132,7 +132,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn try_from(u: $u_t) -> Result<Self, $crate::TryFromIntError> {
-                if u < Self::MAX.as_unsigned() {
+                if u <= Self::MAX.as_unsigned() {
                     Ok(u.as_signed())
                 } else {
                     Err($crate::TryFromIntError {})
-- 
2.43.0


From b819a82f5c3aec2dacd395160c82097a7f17fe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:10 +0000
Subject: [PATCH 12/16] fix: reject a sign without digits when parsing

A lone sign parsed as zero. Primitive integers, and the FromStr implementation
for short texts, report an invalid digit.
---
 src/parse.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index e3dcef8..af7c616 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -143,6 +143,9 @@ macro_rules! define {
                 Some(&b'-') => return Err(ParseIntError::new(IntErrorKind::NegOverflow)),
                 _ => false,
             };
+            if index == digits.len() {
+                return Err(ParseIntError::new(IntErrorKind::InvalidDigit));
+            }
             let overflow_digits = overflow_digits::<Self>(radix, $is_signed);
             let cannot_overflow = (digits.len() - index) <= overflow_digits;
 
-- 
2.43.0


From e370871f86b81c94e837bd5689d7472bc77303e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:10 +0000
Subject: [PATCH 13/16] fix: write the digits of negative integers in
 to_str_radix

Only the lowest digit of the two's complement form was written after the minus
sign. Write the digits of the magnitude instead.
---
 src/write.rs | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index adf1ff9..79b3e9c 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -37,19 +37,19 @@ macro_rules! define {
                 );
             }
 
-            // get the start of our buffer
-            let is_negative = $is_signed && self.lt_const(Self::from_u8(0));
-            let start_index = if is_negative {
-                2
-            } else {
-                1
-            };
+            // write the magnitude and our negative sign, if required
+            if $is_signed && self.lt_const(Self::from_u8(0)) {
+                let count = self.as_unsigned().wrapping_neg().to_str_radix(buffer, radix).len();
+                let index = buffer.len() - count - 1;
+                buffer[index] = b'-';
+                return &buffer[index..];
+            }
 
             // This isn't optimized at all.
             let mut rem: $crate::ULimb;
             let mut index = buffer.len();
             let limit = Self::from_u32(radix);
-            while self.ge_const(limit) && index > start_index {
+            while self.ge_const(limit) && index > 1 {
                 index -= 1;
                 (self, rem) = self.div_rem_ulimb(radix as $crate::ULimb);
                 buffer[index] = $crate::write::digit_to_char(rem as u32, radix);
@@ -60,12 +60,6 @@ macro_rules! define {
             index -= 1;
             buffer[index] = $crate::write::digit_to_char(self.get_limb(0) as u32, radix);
 
-            // write our negative sign, if required
-            if is_negative {
-                index -= 1;
-                buffer[index] = b'-';
-            }
-
             &buffer[index..]
         }
     };
-- 
2.43.0


From 5e70c6acf44ed7aae0c313a8b4706bb956a9fccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:10 +0000
Subject: [PATCH 14/16] fix: compute logarithms below the base and reject base
 one

The logarithm of a number smaller than the base is zero, not undefined. A base
of one made the search run forever.
---
 src/uint/checked.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uint/checked.rs b/src/uint/checked.rs
index 27f454a..e0772ac 100644
--- a/src/uint/checked.rs
+++ b/src/uint/checked.rs
@@ -54,11 +54,13 @@ macro_rules! define {
         #[inline(always)]
         pub fn checked_ilog(self, base: Self) -> Option<u32> {
             let zero = Self::from_u8(0);
-            if self == zero || base <= zero || self < base {
+            if self == zero || base <= Self::from_u8(1) {
                 return None;
+            } else if self < base {
+                return Some(0);
             }
 
-            // Since base >= self, n >= 1
+            // Since base <= self, n >= 1
             let mut n = 1;
             let mut r = base;
 
-- 
2.43.0


From 42a3f15cedc1d475751f4d8d1d5db5297c140790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:10 +0000
Subject: [PATCH 15/16] fix: zero is not positive in the num-traits Signed
 implementation

The trait requires false for zero.
---
 src/int/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index 72afb4e..9324f9e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -169,7 +169,7 @@ macro_rules! define {
 
             #[inline(always)]
             fn is_positive(&self) -> bool {
-                *self >= <Self as ::num_traits::ConstZero>::ZERO
+                *self > <Self as ::num_traits::ConstZero>::ZERO
             }
 
             #[inline(always)]
-- 
2.43.0


From 9cad6e4171043a5933a624c4ed9eec944d8b3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:59 +0000
Subject: [PATCH 16/16] fix: follow formatter options when formatting integers

Display and Debug ignored the width, fill and alignment. The binary, octal
and hexadecimal formats padded with spaces for the zero flag, always padded
on the left, and put the padding after the prefix. Unsigned integers ignored
the plus flag.

Use Formatter::pad_integral, as the primitive integers do.
---
 src/int/traits.rs  | 10 ++++------
 src/uint/traits.rs | 50 +++++-----------------------------------------
 2 files changed, 9 insertions(+), 51 deletions(-)

diff --git a/src/int/traits.rs b/src/int/traits.rs
index 9324f9e..e41c22e 100644
--- a/src/int/traits.rs
+++ b/src/int/traits.rs
@@ -62,12 +62,10 @@ macro_rules! define {
         impl core::fmt::Display for $t {
             #[inline]
             fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> Result<(), core::fmt::Error> {
-                if self.is_negative() {
-                    write!(f, "-")?;
-                } else if f.sign_plus() {
-                    write!(f, "+")?;
-                }
-                core::fmt::Display::fmt(&self.unsigned_abs(), f)
+                let mut buffer = [0u8; Self::BITS as usize];
+                let bytes = self.unsigned_abs().to_str_radix(&mut buffer, 10);
+                let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
+                f.pad_integral(!self.is_negative(), "", formatted)
             }
         }
 
diff --git a/src/uint/traits.rs b/src/uint/traits.rs
index b9814bb..396319b 100644
--- a/src/uint/traits.rs
+++ b/src/uint/traits.rs
@@ -15,17 +15,7 @@ macro_rules! define {
                 let mut buffer = [0u8; Self::BITS as usize];
                 let bytes = self.to_str_radix(&mut buffer, 2);
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                if f.alternate() {
-                    f.write_str("0b")?;
-                }
-                if let Some(width) = f.width() {
-                    let c = f.fill();
-                    let pad = width.saturating_sub(bytes.len());
-                    for _ in 0..pad {
-                        write!(f, "{c}")?;
-                    }
-                }
-                core::write!(f, "{}", formatted)
+                f.pad_integral(true, "0b", formatted)
             }
         }
 
@@ -36,7 +26,7 @@ macro_rules! define {
                 let mut buffer = [0u8; Self::BITS as usize];
                 let bytes = self.to_str_radix(&mut buffer, 10);
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                core::write!(f, "{}", formatted)
+                f.pad_integral(true, "", formatted)
             }
         }
 
@@ -48,17 +38,7 @@ macro_rules! define {
                 let lower = buffer.map(|x| x.to_ascii_lowercase());
                 let bytes = &lower[buffer.len() - count..];
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                if f.alternate() {
-                    f.write_str("0x")?;
-                }
-                if let Some(width) = f.width() {
-                    let c = f.fill();
-                    let pad = width.saturating_sub(count);
-                    for _ in 0..pad {
-                        write!(f, "{c}")?;
-                    }
-                }
-                f.write_str(formatted)
+                f.pad_integral(true, "0x", formatted)
             }
         }
 
@@ -70,17 +50,7 @@ macro_rules! define {
                 let upper = buffer.map(|x| x.to_ascii_uppercase());
                 let bytes = &upper[buffer.len() - count..];
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                if f.alternate() {
-                    f.write_str("0x")?;
-                }
-                if let Some(width) = f.width() {
-                    let c = f.fill();
-                    let pad = width.saturating_sub(count);
-                    for _ in 0..pad {
-                        write!(f, "{c}")?;
-                    }
-                }
-                f.write_str(formatted)
+                f.pad_integral(true, "0x", formatted)
             }
         }
 
@@ -112,17 +82,7 @@ macro_rules! define {
                 let mut buffer = [0u8; Self::BITS as usize];
                 let bytes = self.to_str_radix(&mut buffer, 8);
                 let formatted = core::str::from_utf8(bytes).or_else(|_| Err(core::fmt::Error))?;
-                if f.alternate() {
-                    f.write_str("0o")?;
-                }
-                if let Some(width) = f.width() {
-                    let c = f.fill();
-                    let pad = width.saturating_sub(bytes.len());
-                    for _ in 0..pad {
-                        write!(f, "{c}")?;
-                    }
-                }
-                core::write!(f, "{}", formatted)
+                f.pad_integral(true, "0o", formatted)
             }
         }
 
-- 
2.43.0

