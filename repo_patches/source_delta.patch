From b0821c2a614e1b73907171ffbacf97cb3e2fea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:31 +0000
Subject: [PATCH 01/14] fix: subtracting a two-digit integer from a decimal
 number dropped a digit too many

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0bbab40..5af157e 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -865,7 +865,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
             *self -= low;
             match super::sub::sub_assign_digit(&mut self.digits[1..], high)
             {
-                Ok(nd) => { self.digits.truncate(nd); },
+                Ok(nd) => { self.digits.truncate(1 + nd); self.drop_leading_zeros(); },
                 Err(err) => { panic!("Failed to subtract: {}", err); }
             }
         }
-- 
2.43.0


From 20f652ab818a8ec982e2203ffef42ac06a0a84b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 02/14] fix: subtracting a single digit from an equal number
 left a leading zero

---
 src/ubig/sub.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index dd92232..bf888a2 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -73,7 +73,7 @@ where T: Digit
     }
     else
     {
-        Ok(nr.len())
+        Ok(drop_leading_zeros(nr, nr.len()))
     }
 }
 
-- 
2.43.0


From 98513683948c9fce28089be9709650d9e397fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 03/14] fix: subtraction with borrow could leave leading zeros
 in the difference

---
 src/ubig/sub.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/ubig/sub.rs b/src/ubig/sub.rs
index bf888a2..2a6f1fd 100644
--- a/src/ubig/sub.rs
+++ b/src/ubig/sub.rs
@@ -94,13 +94,9 @@ where T: Digit
         let carry = nr0.iter_mut().zip(nr1).fold(false, |carry, (d0, &d1)| d0.sub_carry_assign(d1, carry));
         if carry
         {
-            let nd = dec_assign(&mut nr0[n1..])?;
-            Ok(n1 + nd)
-        }
-        else
-        {
-            Ok(drop_leading_zeros(nr0, n0))
+            dec_assign(&mut nr0[n1..])?;
         }
+        Ok(drop_leading_zeros(nr0, n0))
     }
 }
 
@@ -135,14 +131,9 @@ where T: Digit
         diff[n1..n0].copy_from_slice(&nr0[n1..]);
         if carry
         {
-            let nd = dec_assign(&mut diff[n1..n0])?;
-            Ok(n1 + nd)
-        }
-        else
-        {
-            let n = drop_leading_zeros(diff, n0);
-            Ok(n)
+            dec_assign(&mut diff[n1..n0])?;
         }
+        Ok(drop_leading_zeros(diff, n0))
     }
 }
 
-- 
2.43.0


From 3a7c4ab135ece5c1a55e2cdb35756a13e28ef1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 04/14] fix: quotient digit estimate overflowed in long
 division when the leading digits are equal

---
 src/ubig/div.rs      | 10 ++++++++--
 src/ubig/div/long.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index eafe513..ae30130 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -99,8 +99,14 @@ where T: Digit
 
                 for digit in nr[..n-1].iter_mut().rev()
                 {
-                    let mut quot = rem_low;
-                    quot.div_carry_assign(den_high, rem_high);
+                    // If the most significant digits are equal, the estimate does not fit in a
+                    // digit. Since the quotient does, use the largest digit instead.
+                    let mut quot = T::MAX;
+                    if rem_high < den_high
+                    {
+                        quot = rem_low;
+                        quot.div_carry_assign(den_high, rem_high);
+                    }
 
                     let mut d1 = den_low;
                     let c1 = d1.mul_carry_assign(quot, T::zero());
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d3de633..d90c757 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -102,8 +102,14 @@ where T: Digit
     // Now handle the other digits
     for iq in (0..nnum-nden).rev()
     {
-        q = num[iq+nden-1];
-        q.div_carry_assign(msd, num[iq+nden]);
+        // If the most significant digits are equal, the estimate does not fit in a digit. Since the
+        // quotient does, use the largest digit instead.
+        q = T::MAX;
+        if num[iq+nden] < msd
+        {
+            q = num[iq+nden-1];
+            q.div_carry_assign(msd, num[iq+nden]);
+        }
         if !q.is_zero()
         {
             crate::ubig::mul::mul_digit_into(den, q, qden);
-- 
2.43.0


From 9b45568944998d5fd30f075314c6ef54d4077583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 05/14] fix: long division wrote past the quotient when its
 first digit was corrected to zero

---
 src/ubig/div/long.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index d90c757..c0eeda4 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -75,11 +75,7 @@ where T: Digit
     let mut nquot = nnum - nden + 1;
     let mut q = num[nnum-1];
     q.div_carry_assign(msd, num_msd);
-    if q.is_zero()
-    {
-        nquot -= 1;
-    }
-    else
+    if !q.is_zero()
     {
         crate::ubig::mul::mul_digit_into(den, q, qden);
         if qden[nden] > num_msd
@@ -96,6 +92,13 @@ where T: Digit
         }
 
         let _ = crate::ubig::sub::sub_assign_big(&mut num[nnum-nden..], &qden[..nden]);
+    }
+    if q.is_zero()
+    {
+        nquot -= 1;
+    }
+    else
+    {
         quot[nquot-1] = q;
     }
 
-- 
2.43.0


From fb83c584ffdb17a9fbc6807e1918f0aaedcd1fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:31 +0000
Subject: [PATCH 06/14] fix: normalising a decimal divisor could overflow its
 most significant digit

---
 src/ubig/div.rs      |  2 +-
 src/ubig/div/bz.rs   |  8 ++++----
 src/ubig/div/long.rs |  2 +-
 src/ubig/shl.rs      | 22 ++++++++++++++++++++++
 4 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/ubig/div.rs b/src/ubig/div.rs
index ae30130..b2eae4b 100644
--- a/src/ubig/div.rs
+++ b/src/ubig/div.rs
@@ -86,7 +86,7 @@ where T: Digit
             0 => Ok((0, T::zero(), T::zero())),
             1 => { let rem_low = nr[0]; nr[0] = T::zero(); Ok((0, rem_low, T::zero())) },
             n => {
-                let shift = fac_high.max_shift() as usize;
+                let shift = crate::ubig::shl::max_shift(&[fac_low, fac_high]);
                 let (mut den_low, mut den_high) = (fac_low, fac_high);
                 let mut rem_high = T::zero();
                 if shift > 0
diff --git a/src/ubig/div/bz.rs b/src/ubig/div/bz.rs
index 8caf5eb..2c6ecb6 100644
--- a/src/ubig/div/bz.rs
+++ b/src/ubig/div/bz.rs
@@ -44,13 +44,13 @@ where T: Digit
 
     let mut sden = vec![T::zero(); n];
     sden[n-nden..].copy_from_slice(den);
-    let shift = sden[n-1].max_shift();
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift as usize, T::zero());
+    let shift = crate::ubig::shl::max_shift(den);
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut sden, shift, T::zero());
 
     let t = 2 + (nnum-nden) / n;
     let mut snum = vec![T::zero(); t*n];
     snum[n-nden..n-nden+nnum].copy_from_slice(num);
-    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift as usize, T::zero());
+    crate::ubig::shl::shl_carry_assign_within_digit(&mut snum[n-nden..n-nden+nnum+1], shift, T::zero());
 
     let mut q = vec![T::zero(); (t-1)*n];
     for i in (0..t-1).rev()
@@ -58,7 +58,7 @@ where T: Digit
         div_big_bz_2n_n(&mut snum[i*n..(i+2)*n], &sden, &mut q[i*n..(i+1)*n], work);
     }
 
-    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift as usize, T::zero());
+    let (nrem, _) = crate::ubig::shr::shr_carry_assign_within_digit(&mut snum[n-nden..n], shift, T::zero());
     let nquot = drop_leading_zeros(&q, q.len());
 
     quot[..nquot].copy_from_slice(&q[..nquot]);
diff --git a/src/ubig/div/long.rs b/src/ubig/div/long.rs
index c0eeda4..52af983 100644
--- a/src/ubig/div/long.rs
+++ b/src/ubig/div/long.rs
@@ -39,7 +39,7 @@ where T: Digit
         || (quot.len() >= nnum - nden && crate::ubig::cmp::lt(&num[nnum-nden..], den)));
     debug_assert!(work.len() >= calc_div_long_work_size(nden));
 
-    let shift = den[nden-1].max_shift() as usize;
+    let shift = crate::ubig::shl::max_shift(den);
     if shift == 0
     {
         div_big_long_scaled(num, T::zero(), den, quot, work)
diff --git a/src/ubig/shl.rs b/src/ubig/shl.rs
index e4eb487..b459968 100644
--- a/src/ubig/shl.rs
+++ b/src/ubig/shl.rs
@@ -31,6 +31,28 @@ where T: Digit
     }
 }
 
+/// Return the maximum number of bits the number represented by the digits in `nr` can be shifted
+/// left without overflowing its most significant digit, which should not be zero. This takes into
+/// account the carry from the less significant digits: when the base of the number is not a power
+/// of two, that carry may push the shifted most significant digit past the base.
+pub fn max_shift<T>(nr: &[T]) -> usize
+where T: Digit
+{
+    let shift = nr[nr.len()-1].max_shift() as usize;
+    if shift == 0
+    {
+        return 0;
+    }
+
+    let mut carry = T::zero();
+    for &d in nr
+    {
+        let mut shifted = d;
+        carry = shifted.shl_carry_assign(shift, carry);
+    }
+    if carry.is_zero() { shift } else { shift - 1 }
+}
+
 #[cfg(test)]
 mod tests
 {
-- 
2.43.0


From aafe4c8075df4d9d70e335f7b63efd75542c834e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 07/14] fix: dividing a big number by zero destroyed the
 dividend

---
 src/ubig.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ubig.rs b/src/ubig.rs
index 6878c09..4308b65 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -230,6 +230,11 @@ impl<T> UBig<T>
     pub fn div_assign_big(&mut self, other: &Self) -> Result<Self>
     where T: Digit
     {
+        if other.is_zero()
+        {
+            return Err(Error::DivisionByZero);
+        }
+
         let nnum = self.nr_digits();
         let nden = other.nr_digits();
 
-- 
2.43.0


From 905e073a6ca0788a4c15db59b7adcad9b8dbe70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:03 +0000
Subject: [PATCH 08/14] fix: converting a big number to decimal dropped zeros
 from the lower part

---
 src/ubig.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 4308b65..5e71a0f 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -337,7 +337,7 @@ impl<T> UBig<BinaryDigit<T>>
                 let mut low = self.div_assign_big(&scales[idx]).unwrap();
                 let mut res = low.build_decimal(scales);
                 let high_dec = self.build_decimal(scales);
-                res.digits.extend(high_dec.digits);
+                res.add_assign_big_at_offset(&high_dec, 1 << idx);
                 res
             }
         }
-- 
2.43.0


From e9212f76de6a6405dd38cde6bab67d2610180cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 09/14] fix: parsing accepted empty numbers and signs in the
 middle of a number

---
 src/ubig.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ubig.rs b/src/ubig.rs
index 5e71a0f..eae4eeb 100644
--- a/src/ubig.rs
+++ b/src/ubig.rs
@@ -404,6 +404,18 @@ where T: DigitStorage, DecimalDigit<T>: Digit
     }
 }
 
+/// Return whether `s` is a valid denotation of a number: either a hexadecimal number starting
+/// with `0x`, or a decimal number, optionally starting with a `+` sign.
+fn is_number(s: &str) -> bool
+{
+    let (digits, base) = match s.strip_prefix("0x")
+        {
+            Some(hex) => (hex, 16),
+            None      => (s.strip_prefix('+').unwrap_or(s), 10)
+        };
+    !digits.is_empty() && digits.chars().all(|c| c.is_digit(base))
+}
+
 impl<T> std::str::FromStr for UBig<BinaryDigit<T>>
 where T: DigitStorage, BinaryDigit<T>: Digit
 {
@@ -411,7 +423,7 @@ where T: DigitStorage, BinaryDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
+        if !is_number(s)
         {
             Err(Error::InvalidNumber)
         }
@@ -427,6 +439,7 @@ where T: DigitStorage, BinaryDigit<T>: Digit
         }
         else
         {
+            let s = s.strip_prefix('+').unwrap_or(s);
             // FIXME: this could probably be done more efficiently then one digit at a time.
             let ten = (T::one() << 3) + (T::one() << 1);
             let scale = BinaryDigit(ten.pow(BinaryDigit::<T>::MAX_DECIMAL_PLACES));
@@ -448,7 +461,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 
     fn from_str(s: &str) -> Result<Self>
     {
-        if !s.is_ascii()
+        if !is_number(s)
         {
             Err(Error::InvalidNumber)
         }
@@ -466,6 +479,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
         }
         else
         {
+            let s = s.strip_prefix('+').unwrap_or(s);
             let mut digits = Vec::with_capacity(s.len() / DecimalDigit::<T>::NR_DECIMAL_PLACES + 1);
             for part in s.as_bytes().rchunks(DecimalDigit::<T>::NR_DECIMAL_PLACES)
             {
-- 
2.43.0


From b9fdbfdd93fb1fc2a61feb4c7816320b055253f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:05 +0000
Subject: [PATCH 10/14] fix: shifting zero left by whole digits created leading
 zeros

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 5af157e..0d9c95c 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -713,7 +713,7 @@ where BinaryDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        if high != 0
+        if high != 0 && !self.digits.is_empty()
         {
             self.digits.splice(..0, std::iter::repeat(BinaryDigit::zero()).take(high));
         }
-- 
2.43.0


From 56eaf159f30fac26f4e2d2661c7804bf2a817dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 11/14] fix: shifting a binary number right by more than its
 size panicked

---
 src/ubig/ops.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 0d9c95c..5806fa5 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -772,7 +772,8 @@ where BinaryDigit<T>: Digit
         let (high, low) = (n / BinaryDigit::<T>::NR_BITS, n % BinaryDigit::<T>::NR_BITS);
         if high != 0
         {
-            self.digits.drain(..high);
+            let nr_drop = high.min(self.nr_digits());
+            self.digits.drain(..nr_drop);
         }
         if low != 0
         {
-- 
2.43.0


From 9a540fd9a1d23f5ad3d2497b213885dcc8302146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:08 +0000
Subject: [PATCH 12/14] fix: shifting a decimal number right by more than a
 digit was not implemented

---
 src/ubig/ops.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index 5806fa5..dcae6b1 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -791,18 +791,16 @@ where T: DigitStorage, DecimalDigit<T>: Digit
 {
     fn shr_assign(&mut self, n: usize)
     {
-        if n <= 4 * DecimalDigit::<T>::MAX_HEX_PLACES
+        let mut nleft = n;
+        while nleft > 0 && !self.digits.is_empty()
         {
-            let (nd, _) = super::shr::shr_carry_assign_within_digit(&mut self.digits, n, DecimalDigit::zero());
+            let shift = nleft.min(4 * DecimalDigit::<T>::MAX_HEX_PLACES);
+            let (nd, _) = super::shr::shr_carry_assign_within_digit(&mut self.digits, shift, DecimalDigit::zero());
             if nd < self.nr_digits()
             {
                 self.digits.truncate(nd);
             }
-        }
-        else
-        {
-            // FIXME
-            unimplemented!()
+            nleft -= shift;
         }
     }
 }
-- 
2.43.0


From f90701ba9312af83c09c6a251f5041a2215af486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 13/14] fix: Toom-3 squaring used stale digits from its result
 buffer

---
 src/ubig/mul/toom3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubig/mul/toom3.rs b/src/ubig/mul/toom3.rs
index a44d1ef..feda549 100644
--- a/src/ubig/mul/toom3.rs
+++ b/src/ubig/mul/toom3.rs
@@ -306,6 +306,7 @@ where T: Digit
 
     let n = 2*nd0;
 
+    result.fill(T::zero());
     let (p1, res) = result.split_at_mut(b+1);
     let (pm1, pm2) = res.split_at_mut(b+1);
     let (work, new_work) = work.split_at_mut(6*b+10);
-- 
2.43.0


From fdc7a2a00b0770ab9c478a6cb81a9693737e463b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:35 +0000
Subject: [PATCH 14/14] fix: shifting a decimal zero left by a large amount
 computed the power of two

---
 src/ubig/ops.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubig/ops.rs b/src/ubig/ops.rs
index dcae6b1..e1843d8 100644
--- a/src/ubig/ops.rs
+++ b/src/ubig/ops.rs
@@ -733,7 +733,7 @@ where T: DigitStorage, DecimalDigit<T>: Digit
                 self.digits.push(carry);
             }
         }
-        else
+        else if !self.digits.is_empty()
         {
             let two = UBig::one() + UBig::one();
             let scale = two.pow(n);
-- 
2.43.0

