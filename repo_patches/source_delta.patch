From f3234ac171acf5472d41b38eb1773743b1c5fc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:03 +0000
Subject: [PATCH 1/9] fix: visiting the suffixes of an empty window must visit
 nothing

When an emptied window has its start at index 0 and its cursor at the last
index, the range 0..max_size was visited and the size assertion failed.
---
 src/history/window.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/history/window.rs b/src/history/window.rs
index ef965a5..67c3ee0 100644
--- a/src/history/window.rs
+++ b/src/history/window.rs
@@ -180,7 +180,9 @@ impl InputWindow {
 
     pub fn for_each_suffix<F: Fn(WindowIndex) -> ()>(&self, action: F) {
         let suffices_range =
-            if self.size == 0 || self.start.value <= self.cursor.value {
+            if self.size == 0 {
+                (0..0).chain(0..0)
+            } else if self.start.value <= self.cursor.value {
                 (self.start.value..self.cursor.value + 1).chain(0..0)
             } else {
                 (self.start.value..self.max_size)
-- 
2.43.0


From 1d28bc7406300ee0c22b73eeced2e3cd1396d701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 2/9] fix: complement of a signed fraction must not overflow

1 is not representable in these types (the raw value is negative), so
subtracting from it always panicked.
---
 src/fixed_point/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fixed_point/types.rs b/src/fixed_point/types.rs
index 85a6b2f..0b1014f 100644
--- a/src/fixed_point/types.rs
+++ b/src/fixed_point/types.rs
@@ -123,7 +123,7 @@ impl FractOnlyI32 {
 
     /// Returns: (1 - self)
     pub fn flip(&self) -> Self {
-        Self::ONE_UNSAFE.sub(self)
+        self.to_unsigned().flip().to_signed()
     }
 
     pub fn to_unsigned(&self) -> FractOnlyU32 {
@@ -177,7 +177,7 @@ impl FractOnlyI64 {
 
     /// Returns: (1 - self)
     pub fn flip(&self) -> Self {
-        Self::ONE_UNSAFE.sub(self)
+        self.to_unsigned().flip().to_signed()
     }
 
     pub fn to_unsigned(&self) -> FractOnlyU64 {
-- 
2.43.0


From 130a84994ccef63da17cb2b3377093bcd9c680b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 3/9] fix: negating the smallest fixed-point value must not
 wrap silently

Sums and differences are checked in every build mode, negation was only
checked where the compiler adds overflow checks.
---
 src/fixed_point/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/fixed_point/mod.rs b/src/fixed_point/mod.rs
index 315f4c9..5a5a3d7 100644
--- a/src/fixed_point/mod.rs
+++ b/src/fixed_point/mod.rs
@@ -138,7 +138,14 @@ pub trait FixI32: FixedPoint<Raw=i32> {
     }
 
     fn neg(&self) -> Self {
-        Self::new(-self.raw(), Self::FRACTIONAL_BITS)
+        let neg_raw =
+            if DO_CHECKS {
+                self.raw().checked_neg()
+                    .expect("numeric range exceeded")
+            } else {
+                -self.raw()
+            };
+        Self::new(neg_raw, Self::FRACTIONAL_BITS)
     }
 }
 
@@ -390,7 +397,14 @@ pub trait FixI64: FixedPoint<Raw=i64> {
     }
 
     fn neg(&self) -> Self {
-        Self::new(-self.raw(), Self::FRACTIONAL_BITS)
+        let neg_raw =
+            if DO_CHECKS {
+                self.raw().checked_neg()
+                    .expect("numeric range exceeded")
+            } else {
+                -self.raw()
+            };
+        Self::new(neg_raw, Self::FRACTIONAL_BITS)
     }
 }
 
-- 
2.43.0


From c217778be3444ab1f9db4455f11a2cdc927d3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 4/9] fix: probability estimates must not be rounded to 0 or 1

An update at count 0 of the outermost predictions was rounded out of the
open interval; at the upper end the packed prediction wrapped to 0.
---
 src/estimators/decelerating.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estimators/decelerating.rs b/src/estimators/decelerating.rs
index 5730d8d..ece78f7 100644
--- a/src/estimators/decelerating.rs
+++ b/src/estimators/decelerating.rs
@@ -84,6 +84,9 @@ impl DeceleratingEstimator {
         prediction = fix_i64::scaled_down(
             prediction, prediction_bits + factor_bits - Self::PREDICTION_BITS);
         prediction += 1i64 << (Self::PREDICTION_BITS - 1);
+        // rounding must not reach 0 or 1 from the outermost predictions
+        let prediction =
+            prediction.max(1).min((1i64 << Self::PREDICTION_BITS) - 1);
         let prediction = (prediction as u32) << Self::COUNT_BITS;
         let count = (count + 1).min(Self::MAX_COUNT) as u32;
         self.0 = prediction | count;
-- 
2.43.0


From f525415a583107c23ce8854ac01abf9ad0985d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 5/9] fix: refining between two saturated map entries must not
 fail

With both entries at 1 - 2^-31 (reached with rate 1) and equal weights the
rounded products add up to 1, which is not a valid probability.
---
 src/mixing/apm.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mixing/apm.rs b/src/mixing/apm.rs
index b73f0bd..1ab7d7c 100644
--- a/src/mixing/apm.rs
+++ b/src/mixing/apm.rs
@@ -126,7 +126,10 @@ impl AdaptiveProbabilityMap {
             &right_bound, &weight_right);
         let result_left: FractOnlyU32 = fix_u32::mul(
             &left_bound, &weight_left);
-        result_left.add(&result_right)
+        // both products may be rounded up, but the result must stay below 1
+        let result_raw = (result_left.raw() + result_right.raw())
+            .min(FractOnlyU32::ONE_UNSAFE.raw() - 1);
+        FractOnlyU32::new(result_raw, 31)
     }
 
     pub fn update_predictions(&mut self, context: usize, input_bit: Bit,
-- 
2.43.0


From 81d04faa694baeb0b6093429493a1cea45342e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:22 +0000
Subject: [PATCH 6/9] hook: predictor over a chosen window (cfg demixer_verif)

---
 src/predictor/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/predictor/mod.rs b/src/predictor/mod.rs
index 045dbdf..899190a 100644
--- a/src/predictor/mod.rs
+++ b/src/predictor/mod.rs
@@ -58,6 +58,18 @@ impl<'a> Predictor<'a> {
         }
     }
 
+    /// Same predictor, but over a window and up to an order that monitors
+    /// choose, so that they can observe it while the window slides.
+    #[cfg(demixer_verif)]
+    pub fn with_window(max_window_size: usize, max_order: usize,
+                       luts: &'a LookUpTables) -> Self {
+        assert!(max_order <= Self::MAX_ORDER);
+        let mut result = Self::new(luts);
+        result.tree_source =
+            TreeHistorySource::new(max_window_size, max_order, luts);
+        result
+    }
+
     pub fn start_new_byte(&mut self) {
         assert_eq!(self.final_probability_opt, None);
         self.last_bytes.start_new_byte();
-- 
2.43.0


From 786a6e7069a886090d189817d4d38ec8ac77e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 7/9] fix: total cost from tables must include bits without
 matching contexts

---
 src/predictor/stats.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/predictor/stats.rs b/src/predictor/stats.rs
index 8c18c45..2a2bf02 100644
--- a/src/predictor/stats.rs
+++ b/src/predictor/stats.rs
@@ -77,6 +77,12 @@ impl<'a> PredictionStatistics<'a> {
         let contexts_count = contexts.items().len();
         self.total_contexts_count += contexts_count as u64;
 
+        // bits without any matching context are coded, so they cost, too
+        let bit_cost = final_probability
+            .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
+        self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
+        self.total_cost = self.total_cost.add(&bit_cost);
+
         if contexts_count > 0 {
             let max_order = contexts_count - 1;
             let stats_index = {
@@ -86,10 +92,6 @@ impl<'a> PredictionStatistics<'a> {
                 orders * 5 + unary_orders
             };
             self.per_order_counts[stats_index] += 1;
-            let bit_cost = final_probability
-                .estimate_cost(input_bit, &self.luts.log2_lut()).to_fix_i64();
-            self.current_byte_cost = self.current_byte_cost.add(&bit_cost);
-            self.total_cost = self.total_cost.add(&bit_cost);
             self.per_order_costs[stats_index] =
                 self.per_order_costs[stats_index].add(&bit_cost);
             self.per_order_occurrences_count[stats_index] +=
-- 
2.43.0


From d9ac12bfcb2a35cb0b741c1c42fe6c6f43ef24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 8/9] fix: printing histories of an empty file must not fail

---
 src/bin/print_histories.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/print_histories.rs b/src/bin/print_histories.rs
index 61b66c4..123ed74 100644
--- a/src/bin/print_histories.rs
+++ b/src/bin/print_histories.rs
@@ -54,7 +54,9 @@ fn main() {
 fn print_bit_histories<'a, Source: HistorySource<'a>>(input: &[u8],
                                                       luts: &'a LookUpTables) {
     let mut collected_states = CollectedContextStates::new(MAX_ORDER);
-    let mut history_source = Source::new(input.len(), MAX_ORDER, &luts);
+    // history sources do not support empty windows
+    let window_size = input.len().max(1);
+    let mut history_source = Source::new(window_size, MAX_ORDER, &luts);
     for (i, &x) in input.iter().take(1234).enumerate() {
         println!("Processing byte with index: {}, {}", i, x as char);
         history_source.start_new_byte();
-- 
2.43.0


From 71069f838ea0c37c3f7a4312c56dc2301ee8f18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 9/9] fix: pending carry runs beyond 2^31 - 1 bytes

The run of delayed 0xff bytes was counted in an i32. When it wrapped, the
whole run was left out of the output (or the encoder panicked in builds with
overflow checks).
---
 src/coding/encoder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coding/encoder.rs b/src/coding/encoder.rs
index b33c1e8..69b376c 100644
--- a/src/coding/encoder.rs
+++ b/src/coding/encoder.rs
@@ -26,7 +26,7 @@ pub struct Encoder<'a> {
     writer: &'a mut Write,
     rc_buffer: i32,
     rc_range: i32,
-    run_length_0xff: i32,
+    run_length_0xff: u64,
     last_output_byte: u8,
     delay: bool,
     carry: bool,
-- 
2.43.0

