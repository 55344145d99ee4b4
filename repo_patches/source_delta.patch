From b6ef8a7e3e719eda7a69f5428589d114cfa206c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:08 +0000
Subject: [PATCH 1/7] fix: count literal digits and exponent in wide integers
 while parsing

Digit counters and the fractional digit count were kept in i8 and the exponent
was accumulated before its length was checked, so long inputs wrapped (or
panicked) instead of being rejected.
---
 src/serde.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 51955ff..c658410 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -21,7 +21,7 @@ impl FixedDecimal {
             return Err(Error::ConversionSyntax);
         }
         let mut exp = 0; // exponent
-        let mut d = 0; // total digits of input
+        let mut d: isize = 0; // total digits of input
         let mut dotchar = -1; // position of dot character
         let mut last = -1; // position of last digit
         let mut cfirst = 0; // position of first digit
@@ -102,18 +102,16 @@ impl FixedDecimal {
                     break;
                 }
             }
-            let firstexp = i; // save exponent digit place
+            // maximum exponent is 65, with sign at most 4 chars
+            if bs.len() as isize >= i + 4 {
+                return Err(Error::ConversionSyntax);
+            }
             for c in bs[i as usize..].iter() {
                 if *c < b'0' || *c > b'9' {
                     // not a digit
                     return Err(Error::ConversionSyntax);
                 }
                 exp = exp * 10 + *c as i32 - '0' as i32;
-                i += 1
-            }
-            // maximum exponent is 65, with sign at most 4 chars
-            if i >= firstexp + 4 {
-                return Err(Error::ConversionSyntax);
             }
             if (!nege && exp as usize > MAX_DIGITS) || (nege && exp as usize > MAX_FRAC) {
                 return Err(Error::ConversionSyntax);
@@ -132,9 +130,9 @@ impl FixedDecimal {
         };
         // apply exponent to frac
         let (frac, digits, mut heading_zeroes) = {
-            let mut frac = frac_digits as i8 - exp as i8;
+            let mut frac = frac_digits - exp as isize;
             let digits;
-            let mut heading_zeroes = 0i8;
+            let mut heading_zeroes = 0;
             match frac.cmp(&0) {
                 Ordering::Equal => digits = d,
                 Ordering::Greater => {
@@ -158,6 +156,8 @@ impl FixedDecimal {
         if digits as usize > MAX_DIGITS {
             return Err(Error::ConversionSyntax);
         }
+        // all counts are limited by MAX_DIGITS now
+        let (frac, digits) = (frac as i8, digits as i8);
 
         // units of integral part and fractional part
         let intg_units = get_units(digits - frac);
@@ -211,11 +211,11 @@ impl FixedDecimal {
         if frac_units > 0 {
             let mut out = 0; // accumulator in unit
             let mut cut = DIGITS_PER_UNIT as i8;
-            while heading_zeroes >= DIGITS_PER_UNIT as i8 {
+            while heading_zeroes >= DIGITS_PER_UNIT as isize {
                 // current unit filled all zeroes
                 self.lsu[up as usize] = 0;
                 up -= 1;
-                heading_zeroes -= DIGITS_PER_UNIT as i8;
+                heading_zeroes -= DIGITS_PER_UNIT as isize;
             }
             cut -= heading_zeroes as i8;
             // parse fractional part
-- 
2.43.0


From ab4e097efefff58f9be9f36cee9841aa456c3753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 2/7] fix: never mark zero as negative

Parsing "-0" or rounding a small negative value to zero produced a negative
zero, which printed as "-0" and was refused by as_u64.
---
 src/decimal.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/decimal.rs b/src/decimal.rs
index 4c67980..4956286 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -65,7 +65,10 @@ impl FixedDecimal {
 
     #[inline]
     pub fn set_neg(&mut self) {
-        self.intg |= 0x80u8 as i8;
+        // zero has no sign
+        if !self.is_zero() {
+            self.intg |= 0x80u8 as i8;
+        }
     }
 
     #[inline]
-- 
2.43.0


From 723fd8ff94bde328f70d80b702700c6e6e653632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:45 +0000
Subject: [PATCH 3/7] fix: report overflow in addition and subtraction instead
 of indexing out of bounds

Aligning operands, storing the last carry and trimming the result all indexed
past the unit array when the operands together needed more than nine units.
Leading zero units no longer count towards the capacity.
---
 src/arith.rs   | 33 ++++++++++++++++++++-------------
 src/decimal.rs | 11 +++++++++++
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index b06722f..184d91b 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -198,10 +198,14 @@ impl Rem for FixedDecimal {
 /// intg is added with 0 and carry.
 fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    let liu = lhs.intg_units_non_zero();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.intg_units_non_zero();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        // aligned operands exceed the capacity
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -241,9 +245,6 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             lhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
     } else if intg_unit_diff < 0 {
         // rhs has more intg
         stop = rhs_idx - intg_unit_diff;
@@ -254,15 +255,17 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             res_idx += 1;
             rhs_idx += 1;
         }
-        if carry > 0 {
-            res.lsu[res_idx as usize] = carry;
-        }
-    } else if carry != 0 {
+    }
+    if carry > 0 {
         // no more intg but carry is non-zero
+        if res_idx as usize == MAX_UNITS {
+            res.set_zero();
+            return Err(Error::Overflow);
+        }
         res.lsu[res_idx as usize] = carry;
     }
 
-    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize + carry as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let res_frac_units = res.frac_units() as isize;
     while res_intg_non_zero >= 0 {
@@ -291,10 +294,14 @@ fn add_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// |      |  intg  |   common    |  frac  |
 fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {
     res.set_zero(); // always clear result first
-    let liu = lhs.intg_units();
+    let liu = lhs.intg_units_non_zero();
     let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
+    let riu = rhs.intg_units_non_zero();
     let rfu = rhs.frac_units();
+    if liu.max(riu) + lfu.max(rfu) > MAX_UNITS {
+        // aligned operands exceed the capacity
+        return Err(Error::Overflow);
+    }
     let mut frac_unit_diff = lfu as isize - rfu as isize;
     let mut lhs_idx: isize = 0;
     let mut rhs_idx: isize = 0;
@@ -367,7 +374,7 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
             borrow = b0;
         }
     }
-    let mut res_intg_non_zero = liu.max(riu) as isize;
+    let mut res_intg_non_zero = liu.max(riu) as isize - 1;
     res.frac = lhs.frac.max(rhs.frac);
     let result_frac_units = res.frac_units();
     while res_intg_non_zero >= 0 {
diff --git a/src/decimal.rs b/src/decimal.rs
index 4956286..fc47792 100644
--- a/src/decimal.rs
+++ b/src/decimal.rs
@@ -114,6 +114,17 @@ impl FixedDecimal {
         get_units(self.intg())
     }
 
+    /// Number of integral units without leading zero units.
+    #[inline]
+    pub(crate) fn intg_units_non_zero(&self) -> usize {
+        let frac_units = self.frac_units();
+        let mut intg_units = self.intg_units();
+        while intg_units > 0 && self.lsu[frac_units + intg_units - 1] == 0 {
+            intg_units -= 1;
+        }
+        intg_units
+    }
+
     #[inline]
     pub fn frac(&self) -> i8 {
         self.frac
-- 
2.43.0


From e0682383746abd0ec538029527c58fe4f559efb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 4/7] fix: compute products exactly before truncating them

Digit sums overflowed i8, low units were accessed at negative positions when
many fractional units were cut, carries of cut units were lost and results were
sized by stored instead of significant digits, so that repeated multiplication
ended in spurious overflow.
---
 src/arith.rs | 73 ++++++++++++++++++++++------------------------------
 1 file changed, 31 insertions(+), 42 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 184d91b..348980c 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -396,10 +396,14 @@ fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
 /// reaching the limitation of MAX_UNITS or MAX_FRAC_UNITS.
 fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {
     res.set_zero(); // always clear result first
-    let res_intg_digits = lhs.intg() + rhs.intg();
-    let res_intg_units = get_units(res_intg_digits);
-    let res_frac_digits = lhs.frac() + rhs.frac();
-    let mut res_frac_units = get_units(res_frac_digits);
+    let liu = lhs.intg_units_non_zero();
+    let lfu = lhs.frac_units();
+    let riu = rhs.intg_units_non_zero();
+    let rfu = rhs.frac_units();
+    let res_intg_digits = intg_digits(lhs, liu, lfu) + intg_digits(rhs, riu, rfu);
+    let res_intg_units = (res_intg_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
+    let res_frac_digits = lhs.frac() as usize + rhs.frac() as usize;
+    let mut res_frac_units = (res_frac_digits + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
     if res_intg_units > MAX_UNITS {
         // integral overflow
         return Err(Error::Overflow);
@@ -412,53 +416,38 @@ fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         // exceeds maximum fractional units
         res_frac_units = MAX_FRAC_UNITS;
     }
-    let liu = lhs.intg_units();
-    let lfu = lhs.frac_units();
-    let riu = rhs.intg_units();
-    let rfu = rhs.frac_units();
-    // because result fractional part may be truncated, we need to calculate
-    // how many units has to be shifted and can be ignored in calculation.
-    // 1. If lhsIdx + rhsIdx - shiftUnits < -1, we can ignore the result
-    //    of left.lsu[lhsIdx]*right.lsu[rhsIdx].
-    // 2. If lhsIdx + rhsIdx - shiftUnits = -1, we need to take care of the
-    //    carry and add to result.lsu[0].
-    // 3. If lhsIdx + rhsIdx - shiftUnits >= 0, follow normal calcuation.
-    let shift_units = (lfu + rfu - res_frac_units) as isize;
-    let mut carry: i64 = 0;
-    // let mut res_idx: isize = 0;
+    // because result fractional part may be truncated, the exact product is
+    // calculated first, then the lowest units are dropped.
+    let shift_units = lfu + rfu - res_frac_units;
+    let mut buf = [0i32; MAX_UNITS * 2]; // store exact product
     for (rhs_idx, rv) in rhs.lsu[..(riu + rfu) as usize].iter().enumerate() {
-        let mut res_idx = -1;
-        for (lhs_idx, lv) in lhs.lsu[..(liu + lfu) as usize].iter().enumerate() {
-            res_idx = (lhs_idx + rhs_idx) as isize - shift_units;
-            if res_idx < -1 {
-                continue;
-            }
-            if res_idx == -1 {
-                let v = (*lv as i64) * (*rv as i64);
-                if v < UNIT as i64 {
-                    continue;
-                }
-                carry = v / UNIT as i64; // we only need the carry for lsu of result
-                continue;
-            }
+        let mut carry: i64 = 0;
+        let mut res_idx = rhs_idx;
+        for lv in lhs.lsu[..(liu + lfu) as usize].iter() {
             // calculate product and sum with previous result and carry
-            let v = *lv as i64 * *rv as i64 + res.lsu[res_idx as usize] as i64 + carry;
+            let v = *lv as i64 * *rv as i64 + buf[res_idx] as i64 + carry;
             carry = v / UNIT as i64;
-            res.lsu[res_idx as usize] = (v - carry * UNIT as i64) as i32;
-        }
-        debug_assert!(res_idx >= 0);
-        if res_idx + 1 < MAX_UNITS as isize {
-            res.lsu[(res_idx + 1) as usize] = carry as i32;
-        } else if carry > 0 {
-            return Err(Error::Overflow);
+            buf[res_idx] = (v - carry * UNIT as i64) as i32;
+            res_idx += 1;
         }
-        carry = 0
+        buf[res_idx] = carry as i32;
     }
-    res.frac = res_frac_digits.min((res_frac_units * DIGITS_PER_UNIT) as i8);
+    let res_units = res_intg_units + res_frac_units;
+    res.lsu[..res_units].copy_from_slice(&buf[shift_units..shift_units + res_units]);
+    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;
     res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
 
+/// returns number of integral digits, heading zeroes are not counted.
+#[inline]
+fn intg_digits(fd: &FixedDecimal, intg_units: usize, frac_units: usize) -> usize {
+    if intg_units == 0 {
+        return 0;
+    }
+    intg_units * DIGITS_PER_UNIT - unit_leading_zeroes(fd.lsu[frac_units + intg_units - 1])
+}
+
 /// Divides two decimals' absolute values.
 /// It's implementation of Knuth's Algorithm 4.3.1 D, with support on fractional numbers.
 #[allow(clippy::many_single_char_names)]
-- 
2.43.0


From cdd50b9402122ef5ad1de9c3614530bd2e707ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 5/7] fix: correct long division in div_abs

The quotient digit estimate was not bounded by the unit, the add-back step
subtracted from the wrong units, the normalized dividend had too little room,
digit counts were narrowed to i8 and the integral digits of the result could be
one too few.
---
 src/arith.rs | 53 +++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 348980c..10670b2 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -83,6 +83,8 @@ impl FixedDecimal {
     #[inline]
     pub fn div_to(lhs: &Self, rhs: &Self, res: &mut Self, incr_frac: usize) -> Result<()> {
         let res_neg = lhs.is_neg() != rhs.is_neg();
+        // extension beyond the capacity has no effect
+        let incr_frac = incr_frac.min(MAX_UNITS * DIGITS_PER_UNIT);
         div_abs(lhs, rhs, res, incr_frac as isize)?;
         if res_neg {
             res.set_neg_and_check_zero();
@@ -507,7 +509,9 @@ fn div_abs(
         incr_frac = 0;
     }
     // calculate result frac units
-    let mut res_frac_units = get_units((lhs_ext_frac + rhs_ext_frac + incr_frac) as i8);
+    let mut res_frac_units = (lhs_ext_frac + rhs_ext_frac + incr_frac + DIGITS_PER_UNIT as isize
+        - 1) as usize
+        / DIGITS_PER_UNIT;
     if res_frac_units > MAX_FRAC_UNITS {
         // exceeds maximum fractional digits
         res_frac_units = MAX_FRAC_UNITS;
@@ -528,7 +532,7 @@ fn div_abs(
     let res_intg_units: usize;
     let res_start_idx: isize;
     if res_intg > 0 {
-        res_intg_units = get_units(res_intg as i8);
+        res_intg_units = (res_intg as usize + DIGITS_PER_UNIT - 1) / DIGITS_PER_UNIT;
         if res_intg_units > MAX_UNITS {
             return Err(Error::Overflow);
         }
@@ -538,9 +542,9 @@ fn div_abs(
         res_start_idx = (res_frac_units + res_intg_units) as isize - 1;
     } else {
         res_intg_units = 0;
-        let res_start_offset = get_units((1 - res_intg) as i8) as isize;
+        // offset is number of units of (1 - res_intg) digits
+        let res_start_offset = (DIGITS_PER_UNIT as isize - res_intg) / DIGITS_PER_UNIT as isize;
         res_start_idx = res_frac_units as isize - res_start_offset;
-        res_intg = 0;
     }
     let res_units = res_intg_units + res_frac_units;
 
@@ -567,7 +571,7 @@ fn div_abs(
             i -= 1;
             j -= 1;
         }
-        res.intg = res_intg as i8;
+        res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
         res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
         return Ok(());
     }
@@ -575,18 +579,19 @@ fn div_abs(
     // long division using Knuth's algorithm
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
-    // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2]; // store normalized lhs
+    // normalize buf1 and buf2, lhs is extended with enough zero units for the whole division
+    let buf1_start = res_units + rhs_non_zero as usize;
+    let mut buf1 = [0i32; MAX_UNITS * 3]; // store normalized lhs
     let mut buf2 = [0i32; MAX_UNITS]; // store normalized rhs
     if norm_factor == 1 {
-        buf1[res_units..res_units + lhs_non_zero as usize + 1]
+        buf1[buf1_start..buf1_start + lhs_non_zero as usize + 1]
             .copy_from_slice(&lhs.lsu[..lhs_non_zero as usize + 1]);
         buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);
     } else {
         let mut carry: i64 = 0;
         // normalize lhs into buf1
-        let buf1_end = res_units + lhs_non_zero as usize + 1;
-        for (b1, lv) in buf1[res_units..buf1_end]
+        let buf1_end = buf1_start + lhs_non_zero as usize + 1;
+        for (b1, lv) in buf1[buf1_start..buf1_end]
             .iter_mut()
             .zip(lhs.lsu[..lhs_non_zero as usize + 1].iter())
         {
@@ -612,7 +617,7 @@ fn div_abs(
 
     let d0 = buf2[rhs_non_zero as usize] as i64; // rhs most significant unit
     let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit
-    let mut i = res_units as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
+    let mut i = buf1_start as isize + lhs_non_zero + dividend_shift; // index of normalized lhs
     let mut j = res_start_idx; // index of result
     while j >= 0 {
         // D3. make the guess on u1
@@ -624,14 +629,12 @@ fn div_abs(
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0;
-        // qhat cannot be greater or equal to UNIT
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than UNIT");
         let mut u2: i64 = 0;
         if i > 0 {
             u2 = buf1[i as usize - 1] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // check if qhat fits in one unit and can satisfy next unit
             qhat -= 1; // decrease qhat
             rhat += d0; // increase rhat
         }
@@ -658,23 +661,23 @@ fn div_abs(
         borrow += buf1[ms_idx as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             qhat -= 1; // decrease qhat
-            borrow = 0;
-            for i in 0..rhs_non_zero {
-                // reverse subtract
-                let (r0, b0) = sub_with_borrow(0, buf1[(i + j) as usize], borrow);
-                buf1[(i + j) as usize] = r0;
-                borrow = b0;
+            let mut carry = 0;
+            ms_idx = i - rhs_non_zero;
+            for b2 in &buf2[..rhs_non_zero as usize + 1] {
+                let (r0, c0) = add_with_carry(buf1[ms_idx as usize], *b2, carry);
+                buf1[ms_idx as usize] = r0;
+                carry = c0;
+                ms_idx += 1;
             }
-        } else {
-            buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         }
+        buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds
         res.lsu[j as usize] = qhat as i32;
         i -= 1;
         j -= 1;
     }
-    res.intg = res_intg as i8;
+    res.intg = (res_intg_units * DIGITS_PER_UNIT) as i8;
     res.frac = (res_frac_units * DIGITS_PER_UNIT) as i8;
     Ok(())
 }
-- 
2.43.0


From 5a0c8b6fed5b1b2d19607f126b258837042dcc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 6/7] fix: correct long division in rem_abs

Same estimate and add-back errors as in div_abs; a dividend with leading zero
units or a wide alignment also ran past the end of the buffers.
---
 src/arith.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/arith.rs b/src/arith.rs
index 10670b2..a4d4f2b 100644
--- a/src/arith.rs
+++ b/src/arith.rs
@@ -729,9 +729,10 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         Ordering::Less => {
             if rfu > lfu {
                 // rhs has higher fractional precision
-                res.lsu[rfu - lfu..liu + rfu].copy_from_slice(&lhs.lsu[..lfu + liu]);
+                let lhs_units = lhs_non_zero as usize + 1; // leading zero units may not fit
+                res.lsu[rfu - lfu..rfu - lfu + lhs_units].copy_from_slice(&lhs.lsu[..lhs_units]);
                 res.frac = rhs_frac;
-                res.intg = lhs_intg;
+                res.intg = (lhs.intg_units_non_zero() * DIGITS_PER_UNIT) as i8;
                 return Ok(());
             }
             // lhs has higher or same fractional precision
@@ -811,7 +812,7 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
     // D1. normalization
     let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);
     // normalize buf1 and buf2
-    let mut buf1 = [0i32; MAX_UNITS * 2];
+    let mut buf1 = [0i32; MAX_UNITS * 2 + 1]; // one more unit for normalization
     let mut buf2 = [0i32; MAX_UNITS * 2];
     if norm_factor == 1 {
         buf1[lhs_shift_units as usize..buf1_len as usize]
@@ -855,13 +856,12 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         let u = u0 * UNIT as i64 + u1;
         let mut qhat = u / d0;
         let mut rhat = u - qhat * d0 as i64;
-        debug_assert!(qhat < UNIT as i64, "qhat must be less than Unit");
         let mut u2 = 0;
         if i > 0 {
             u2 = buf1[(i - 1) as usize] as i64;
         }
-        while qhat * d1 > rhat * UNIT as i64 + u2 {
-            // check if qhat can satisfy next unit
+        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {
+            // check if qhat fits in one unit and can satisfy next unit
             qhat -= 1;
             rhat += d0;
         }
@@ -883,13 +883,16 @@ fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Re
         borrow += buf1[(i + 1) as usize] - carry as i32;
         if borrow == -1 {
             // qhat is larger, cannot satisfy the whole decimal
-            // D6. add back (reverse subtract)
+            // D6. add back
             // should decrease qhat, but not used in remainder
-            borrow = 0; // reset borrow to zero
-            for b in &mut buf1[(i - buf2_len + 1) as usize..(i + 1) as usize] {
-                let (r0, b0) = sub_with_borrow(0, *b, borrow);
-                borrow = b0;
-                *b = r0;
+            let mut carry = 0;
+            for (b1, b2) in buf1[(i - buf2_len + 1) as usize..(i + 1) as usize]
+                .iter_mut()
+                .zip(buf2[..buf2_len as usize].iter())
+            {
+                let (r0, c0) = add_with_carry(*b1, *b2, carry);
+                carry = c0;
+                *b1 = r0;
             }
         }
         buf1[(i + 1) as usize] = 0;
-- 
2.43.0


From 61233d2d856c25887667f0065dc89a872ff5aa36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 7/7] fix: rounding at unit edges, by extension and with carry
 at full width

Extending the scale left the old low units in place and could exceed the
capacity, rounding to a negative multiple of nine ignored the dropped unit, the
digit check zeroed values that round up into the next digit, and a carry out of
nine units was written past the end.
---
 src/round.rs | 69 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 16 deletions(-)

diff --git a/src/round.rs b/src/round.rs
index 78f730e..c95c0a8 100644
--- a/src/round.rs
+++ b/src/round.rs
@@ -1,5 +1,5 @@
 use crate::arith::add_with_carry;
-use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, UNIT};
+use crate::decimal::{FixedDecimal, DIGITS_PER_UNIT, HALF_UNIT, MAX_UNITS, UNIT};
 use crate::utils::{div9, get_units, mod9};
 
 impl FixedDecimal {
@@ -17,16 +17,24 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is greater than current decimal's precision
-            let round_frac_units = get_units(frac as i8);
+            let intg_units = self.intg_units_non_zero();
+            let frac = extended_frac(frac, this_frac, intg_units);
+            let round_frac_units = get_units(frac);
             if round_frac_units == frac_units {
                 // same number of frac units
-                self.frac = frac as i8;
+                self.frac = frac;
                 return;
             }
             // copy with offset
-            self.lsu
-                .copy_within(..frac_units + intg_units, round_frac_units - frac_units);
-            self.frac = frac as i8;
+            let offset = round_frac_units - frac_units;
+            let neg = self.is_neg();
+            self.lsu.copy_within(..frac_units + intg_units, offset);
+            self.lsu[..offset].fill(0);
+            self.intg = (intg_units * DIGITS_PER_UNIT) as i8;
+            self.frac = frac;
+            if neg {
+                self.set_neg();
+            }
             return;
         }
         let trunc: isize;
@@ -34,11 +42,17 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 self.set_zero();
                 return;
             }
+            if mod9(intg as i8) == 0 {
+                // at edge of one unit
+                if self.lsu[frac_units + div9(intg as i8) - 1] >= HALF_UNIT as i32 {
+                    carry = 1;
+                }
+            }
             self.lsu.copy_within(frac_units..frac_units + intg_units, 0);
             for v in &mut self.lsu[intg_units..frac_units + intg_units] {
                 *v = 0; // reset higher units to zero
@@ -90,19 +104,24 @@ impl FixedDecimal {
         let mut frac_units = self.frac_units();
         if frac >= this_frac as isize {
             // round precision is larger than or equal to current decimal's precision
-            let round_frac_units = get_units(frac as i8);
+            let intg_units = self.intg_units_non_zero();
+            let frac = extended_frac(frac, this_frac, intg_units);
+            let round_frac_units = get_units(frac);
             if round_frac_units == frac_units {
                 // same number of frac units
                 res.intg = self.intg;
-                res.frac = frac as i8;
+                res.frac = frac;
                 res.lsu = self.lsu;
                 return;
             }
             // copy with offset
             res.lsu[round_frac_units - frac_units..round_frac_units + intg_units]
                 .copy_from_slice(&self.lsu[..frac_units + intg_units]);
-            res.intg = self.intg;
-            res.frac = frac as i8;
+            res.intg = (intg_units * DIGITS_PER_UNIT) as i8;
+            res.frac = frac;
+            if self.is_neg() {
+                res.set_neg();
+            }
             return;
         }
         let trunc: isize;
@@ -110,11 +129,17 @@ impl FixedDecimal {
         let mut carry: i32 = 0;
         if frac < 0 {
             // round integral part
-            let intg = -frac;
-            if intg + 1 > self.intg() as isize {
+            let intg = frac.saturating_neg();
+            if intg > self.intg() as isize {
                 res.set_zero();
                 return;
             }
+            if mod9(intg as i8) == 0 {
+                // at edge of one unit
+                if self.lsu[frac_units + div9(intg as i8) - 1] >= HALF_UNIT as i32 {
+                    carry = 1;
+                }
+            }
             res.lsu[..intg_units].copy_from_slice(&self.lsu[frac_units..frac_units + intg_units]); // remove fractional units
             frac_units = 0;
             round_frac = 0;
@@ -156,12 +181,18 @@ impl FixedDecimal {
     }
 }
 
+/// limits the extended frac to the capacity left by integral units.
+fn extended_frac(frac: isize, this_frac: i8, intg_units: usize) -> i8 {
+    let max_frac = ((MAX_UNITS - intg_units) * DIGITS_PER_UNIT) as isize;
+    (frac.min(max_frac) as i8).max(this_frac)
+}
+
 fn round_half_up(
     fd: &mut FixedDecimal,
     mut intg_units: usize,
     frac_units: usize,
     trunc: isize,
-    round_frac: i8,
+    mut round_frac: i8,
     mut carry: i32,
 ) {
     let mut round_idx = div9(trunc as i8);
@@ -250,7 +281,13 @@ fn round_half_up(
             }
         }
         if carry > 0 {
-            fd.lsu[end_idx] = 1;
+            if end_idx == MAX_UNITS && frac_units > 0 {
+                // all units are zero, drop one frac unit to store the carry
+                fd.lsu[end_idx - 1] = 1;
+                round_frac = ((frac_units - 1) * DIGITS_PER_UNIT) as i8;
+            } else {
+                fd.lsu[end_idx] = 1;
+            }
             intg_units += 1;
         }
     }
-- 
2.43.0

