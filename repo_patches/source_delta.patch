From 9ce7fa1fdde164005d93e26ed98165b65c766bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:59 +0000
Subject: [PATCH 1/7] fix: red_bounds: bounds over an interval of multipliers
 were wrong for asymmetric intervals

max_red_mul_interval and min_red_mul_interval used b as a bound on |x| to stop
the search, which is wrong unless -a <= b, and started from the value 0 even if
no x and w in range give it. With w=0, max_red_mul looped for ever and
min_red_mul divided by zero.
---
 src/red_bounds.c                         | 61 ++++++++++++++++--------
 verifier/vstte20-benchmarks/red_bounds.c | 61 ++++++++++++++++--------
 2 files changed, 84 insertions(+), 38 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 795beb9..0b2f904 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -107,6 +107,12 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(w * x) is 0 for any x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +177,12 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(w * x) is 0 for any x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -205,17 +217,26 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
 
 
 
+/*
+ * Largest |x| for a <= x <= b
+ */
+static int64_t max_abs(int64_t a, int64_t b) {
+  return (-a > b) ? -a : b;
+}
+
 /*
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, d, l, h, c;
 
   assert(a <= b && low <= high);
 
-  r_max = 0;
-  x_max = 0;
-  w_max = 0;
+  c = max_abs(a, b); // |x| <= c
+
+  // start with w=0 if that's in the interval or w=low otherwise
+  w_max = (low <= 0 && high >= 0) ? 0 : low;
+  r_max = max_red_mul(a, b, w_max, &x_max);
 
   // negative values of w: l <= w < h
   l = low < 0 ? low : 0;
@@ -223,10 +244,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -244,8 +265,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -267,23 +288,25 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, d, l, h, c;
 
    assert(a <= b && low <= high);
 
-   r_min = 0;
-   x_min = 0;
-   w_min = 0;
+   c = max_abs(a, b); // |x| <= c
+
+   // start with w=0 if that's in the interval or w=low otherwise
+   w_min = (low <= 0 && high >= 0) ? 0 : low;
+   r_min = min_red_mul(a, b, w_min, &x_min);
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m for |x| <= c
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -296,12 +319,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
diff --git a/verifier/vstte20-benchmarks/red_bounds.c b/verifier/vstte20-benchmarks/red_bounds.c
index 795beb9..0b2f904 100644
--- a/verifier/vstte20-benchmarks/red_bounds.c
+++ b/verifier/vstte20-benchmarks/red_bounds.c
@@ -107,6 +107,12 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(w * x) is 0 for any x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +177,12 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(w * x) is 0 for any x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -205,17 +217,26 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
 
 
 
+/*
+ * Largest |x| for a <= x <= b
+ */
+static int64_t max_abs(int64_t a, int64_t b) {
+  return (-a > b) ? -a : b;
+}
+
 /*
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, d, l, h, c;
 
   assert(a <= b && low <= high);
 
-  r_max = 0;
-  x_max = 0;
-  w_max = 0;
+  c = max_abs(a, b); // |x| <= c
+
+  // start with w=0 if that's in the interval or w=low otherwise
+  w_max = (low <= 0 && high >= 0) ? 0 : low;
+  r_max = max_red_mul(a, b, w_max, &x_max);
 
   // negative values of w: l <= w < h
   l = low < 0 ? low : 0;
@@ -223,10 +244,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -244,8 +265,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -267,23 +288,25 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, d, l, h, c;
 
    assert(a <= b && low <= high);
 
-   r_min = 0;
-   x_min = 0;
-   w_min = 0;
+   c = max_abs(a, b); // |x| <= c
+
+   // start with w=0 if that's in the interval or w=low otherwise
+   w_min = (low <= 0 && high >= 0) ? 0 : low;
+   r_min = min_red_mul(a, b, w_min, &x_min);
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m for |x| <= c
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -296,12 +319,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
-- 
2.43.0


From 19b7b282fe215566436d579efae6e692becd8be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:59 +0000
Subject: [PATCH 2/7] fix: red_bounds: document the real size of the bound
 arrays

---
 src/red_bounds.h                         | 4 ++--
 verifier/vstte20-benchmarks/red_bounds.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/red_bounds.h b/src/red_bounds.h
index ca34527..786e4c6 100644
--- a/src/red_bounds.h
+++ b/src/red_bounds.h
@@ -81,7 +81,7 @@ extern int64_t gs_bound_fixed(int64_t b, int64_t w);
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bounds (must be of size log_2(n))
+ * Bounds for each round are stored in array bounds (must be of size log_2(n) + 1)
  */
 extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
@@ -93,7 +93,7 @@ extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bound (must be of size log_2(n))
+ * Bounds for each round are stored in array bound (must be of size log_2(n) + 1)
  */
 extern int64_t ntt_gs_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
diff --git a/verifier/vstte20-benchmarks/red_bounds.h b/verifier/vstte20-benchmarks/red_bounds.h
index a1b83e0..5434124 100644
--- a/verifier/vstte20-benchmarks/red_bounds.h
+++ b/verifier/vstte20-benchmarks/red_bounds.h
@@ -84,7 +84,7 @@ extern int64_t gs_bound_fixed(int64_t b, int64_t w);
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bounds (must be of size log_2(n))
+ * Bounds for each round are stored in array bounds (must be of size log_2(n) + 1)
  */
 extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
@@ -96,7 +96,7 @@ extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bound (must be of size log_2(n))
+ * Bounds for each round are stored in array bound (must be of size log_2(n) + 1)
  */
 extern int64_t ntt_gs_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
-- 
2.43.0


From 84a1791e61257bf7a357e1b2c21638a209f0fd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:59 +0000
Subject: [PATCH 3/7] fix: intervals: overflow checks relied on signed overflow
 and were optimised away

gcc -O3 removes the tests in add64 and sub64, so add and sub returned wrong
intervals instead of reporting the overflow. Same for the signed subtraction
in size.
---
 src/intervals.c | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 56869c8..4918192 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -79,26 +79,22 @@ interval_t *neg(const interval_t *a) {
 
 // addition of x and y with overflow detection
 static int64_t add64(int64_t x, int64_t y) {
-  int64_t z;
-
-  z = x + y;
-  if ((x < 0 && y < 0 && z >= 0) || (x >= 0 && y >= 0 && z < 0)) {
+  // the test must not rely on x + y wrapping around
+  if ((x < 0 && y < INT64_MIN - x) || (x >= 0 && y > INT64_MAX - x)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" + %"PRId64"\n", x, y);
     exit(1);
   }
-  return z;
+  return x + y;
 }
 
 // subtraction: x - y with overflow detection
 static int64_t sub64(int64_t x, int64_t y) {
-  int64_t z;
-
-  z = x - y;
-  if ((x < 0 && y >= 0 && z >= 0) || (x >= 0 && y < 0 && z < 0)) {
+  // the test must not rely on x - y wrapping around
+  if ((y >= 0 && x < INT64_MIN + y) || (y < 0 && x > INT64_MAX + y)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" - %"PRId64"\n", x, y);
     exit(1);
   }
-  return z;
+  return x - y;
 }
 
 
@@ -107,9 +103,9 @@ static int64_t sub64(int64_t x, int64_t y) {
  */
 static uint64_t size(const interval_t *a) {
   assert(a->min <= a->max);
-  // assuming 2s complement, this gives the right answer even
-  // if there's an overflow.
-  return (uint64_t) (a->max - a->min);
+  // unsigned subtraction: this gives the right answer even
+  // if the difference does not fit in 63 bits.
+  return (uint64_t) a->max - (uint64_t) a->min;
 }
 
 /*
-- 
2.43.0


From e85ee0a792b117391a8884d03e8d69cd5d94894e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:35 +0000
Subject: [PATCH 4/7] fix: ntt_red_interval: report overflow of the difference
 in Gentleman-Sande steps

The concrete code computes a[s] - x in 32 bits before the reduction. The
abstract versions didn't check that interval, so they missed overflows.
---
 src/ntt_red_interval.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/ntt_red_interval.c b/src/ntt_red_interval.c
index 3b0ae4f..e55608d 100644
--- a/src/ntt_red_interval.c
+++ b/src/ntt_red_interval.c
@@ -247,6 +247,22 @@ static void show_intervals(const char *prefix, uint32_t loop_counter, interval_t
 }
 
 
+/*
+ * Difference y - x in a Gentleman-Sande step for a[i] & check overflow
+ * - the difference is an intermediate 32bit result: it's not stored in array a
+ *   so show_intervals doesn't see it.
+ */
+static interval_t *sub_and_check(uint32_t i, const interval_t *y, const interval_t *x) {
+  interval_t *z;
+
+  z = sub(y, x);
+  if (z->min < (int64_t) INT32_MIN || z->max > (int64_t) INT32_MAX) {
+    printf("    Warnning: possible overflow for a[%"PRIu32"] - x: bounds = [%"PRId64", %"PRId64"]\n", i, z->min, z->max);
+  }
+  return z;
+}
+
+
 /*
  * COOLEY-TUKEY/INPUT IN BIT-REVERSE ORDER/OUTPUT IN STANDARD ORDER
  */
@@ -689,7 +705,7 @@ void abstract_ntt_red_gs_rev2std(interval_t **a, uint32_t n, const int16_t *p) {
       for (s=u; s<u+d; s++) {
         x = a[s + d];
 	y = a[s];
-	z = sub(y, x);
+	z = sub_and_check(s, y, x);
 	a[s + d] = red_scale(w, z);
 	a[s] = add(y, x);
 	//        a[s + d] = mul_red(a[s] - x, w);
@@ -737,7 +753,7 @@ void abstract2_ntt_red_gs_rev2std(interval_t **a, uint32_t n, const interval_t *
       for (s=u; s<u+d; s++) {
         x = a[s + d];
 	y = a[s];
-	z = sub(y, x);
+	z = sub_and_check(s, y, x);
 	a[s + d] = red_mul(z, w);
 	a[s] = add(y, x);
 	//        a[s + d] = mul_red(a[s] - x, w);
@@ -786,7 +802,7 @@ void abstract_nttmul_red_gs_rev2std(interval_t **a, uint32_t n, const int16_t *p
       for (s=u; s<u+d; s++) {
         x = a[s + d];
 	y = a[s];
-	z = sub(y, x);
+	z = sub_and_check(s, y, x);
 	a[s + d] = red_scale(w, z);
 	a[s] = add(y, x);
 	//        a[s + d] = mul_red(a[s] - x, w);
@@ -823,7 +839,7 @@ void abstract2_nttmul_red_gs_rev2std(interval_t **a, uint32_t n, const interval_
       for (s=u; s<u+d; s++) {
         x = a[s + d];
 	y = a[s];
-	z = sub(y, x);
+	z = sub_and_check(s, y, x);
 	a[s + d] = red_mul(z, w);
 	a[s] = add(y, x);
 	//        a[s + d] = mul_red(a[s] - x, w);
@@ -882,7 +898,7 @@ void abstract_ntt_red_gs_std2rev(interval_t **a, uint32_t n, const int16_t *p) {
       for (s=j; s<n; s += t + t) {
         x = a[s + t];
 	y = a[s];
-	z = sub(y, x);
+	z = sub_and_check(s, y, x);
 	a[s + t] = red_scale(w, z);
 	a[s] = add(y, x);
 	//        a[s + t] = mul_red(a[s] - x, w);
@@ -927,7 +943,7 @@ void abstract2_ntt_red_gs_std2rev(interval_t **a, uint32_t n, const interval_t *
       for (s=j; s<n; s += t + t) {
         x = a[s + t];
 	y = a[s];
-	z = sub(y, x);
+	z = sub_and_check(s, y, x);
 	a[s + t] = red_mul(z, w);
 	a[s] = add(y, x);
 	//        a[s + t] = mul_red(a[s] - x, w);
@@ -973,7 +989,7 @@ void abstract_nttmul_red_gs_std2rev(interval_t **a, uint32_t n, const int16_t *p
       for (s=j; s<n; s += t + t) {
         x = a[s + t];
 	y = a[s];
-	z = sub(y, x);
+	z = sub_and_check(s, y, x);
 	a[s + t] = red_scale(w, z);
 	a[s] = add(y, x);
 	//        a[s + t] = mul_red(a[s] - x, w);
@@ -1007,7 +1023,7 @@ void abstract2_nttmul_red_gs_std2rev(interval_t **a, uint32_t n, const interval_
       for (s=j; s<n; s += t + t) {
         x = a[s + t];
 	y = a[s];
-	z = sub(y, x);
+	z = sub_and_check(s, y, x);
 	a[s + t] = red_mul(z, w);
 	a[s] = add(y, x);
 	//        a[s + t] = mul_red(a[s] - x, w);
-- 
2.43.0


From 039e88c1beb6bdb1754a5e30890c04f18992a04d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:43 +0000
Subject: [PATCH 5/7] fix: table generators: report output errors

make_tables, make_red_tables and make_bitrev_table ignored write and close
errors, so they exited with success after writing truncated tables.
---
 src/make_bitrev_table.c                       | 22 +++++++++++++++++--
 src/make_red_tables.c                         | 22 +++++++++++++++++--
 src/make_tables.c                             | 22 +++++++++++++++++--
 .../vstte20-benchmarks/make_bitrev_table.c    | 22 +++++++++++++++++--
 verifier/vstte20-benchmarks/make_red_tables.c | 22 +++++++++++++++++--
 verifier/vstte20-benchmarks/make_tables.c     | 22 +++++++++++++++++--
 6 files changed, 120 insertions(+), 12 deletions(-)

diff --git a/src/make_bitrev_table.c b/src/make_bitrev_table.c
index 883fb68..c2f71fe 100644
--- a/src/make_bitrev_table.c
+++ b/src/make_bitrev_table.c
@@ -122,6 +122,18 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f
+ * - return false if some output could not be written
+ */
+static bool close_file(FILE *f) {
+  bool ok;
+
+  ok = !ferror(f);
+  if (fclose(f) != 0) ok = false;
+  return ok;
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +166,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.h'\n", n);
+    exit(EXIT_FAILURE);
+  }
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +177,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.c'\n", n);
+    exit(EXIT_FAILURE);
+  }
   
   return 0;
 }
diff --git a/src/make_red_tables.c b/src/make_red_tables.c
index 45e8980..e487874 100644
--- a/src/make_red_tables.c
+++ b/src/make_red_tables.c
@@ -416,6 +416,18 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f
+ * - return false if some output could not be written
+ */
+static bool close_file(FILE *f) {
+  bool ok;
+
+  ok = !ferror(f);
+  if (fclose(f) != 0) ok = false;
+  return ok;
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -500,7 +512,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.h'\n", n);
+    exit(EXIT_FAILURE);
+  }
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -508,7 +523,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.c'\n", n);
+    exit(EXIT_FAILURE);
+  }
   
   return 0;
 }
diff --git a/src/make_tables.c b/src/make_tables.c
index b567de5..902c3dc 100644
--- a/src/make_tables.c
+++ b/src/make_tables.c
@@ -355,6 +355,18 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f
+ * - return false if some output could not be written
+ */
+static bool close_file(FILE *f) {
+  bool ok;
+
+  ok = !ferror(f);
+  if (fclose(f) != 0) ok = false;
+  return ok;
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +439,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.h'\n", n);
+    exit(EXIT_FAILURE);
+  }
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +450,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.c'\n", n);
+    exit(EXIT_FAILURE);
+  }
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_bitrev_table.c b/verifier/vstte20-benchmarks/make_bitrev_table.c
index 883fb68..c2f71fe 100644
--- a/verifier/vstte20-benchmarks/make_bitrev_table.c
+++ b/verifier/vstte20-benchmarks/make_bitrev_table.c
@@ -122,6 +122,18 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f
+ * - return false if some output could not be written
+ */
+static bool close_file(FILE *f) {
+  bool ok;
+
+  ok = !ferror(f);
+  if (fclose(f) != 0) ok = false;
+  return ok;
+}
+
 int main(int argc, char *argv[]) {
   uint32_t n, log_n;
   long x;
@@ -154,7 +166,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_declarations(f, n, log_n);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.h'\n", n);
+    exit(EXIT_FAILURE);
+  }
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -162,7 +177,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_bitrev_table(f, n, log_n);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'bitrev%"PRIu32"_table.c'\n", n);
+    exit(EXIT_FAILURE);
+  }
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_red_tables.c b/verifier/vstte20-benchmarks/make_red_tables.c
index c500678..44a382d 100644
--- a/verifier/vstte20-benchmarks/make_red_tables.c
+++ b/verifier/vstte20-benchmarks/make_red_tables.c
@@ -398,6 +398,18 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f
+ * - return false if some output could not be written
+ */
+static bool close_file(FILE *f) {
+  bool ok;
+
+  ok = !ferror(f);
+  if (fclose(f) != 0) ok = false;
+  return ok;
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, k, inv_k, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -482,7 +494,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.h'\n", n);
+    exit(EXIT_FAILURE);
+  }
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -490,7 +505,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'ntt_red%"PRIu32"_tables.c'\n", n);
+    exit(EXIT_FAILURE);
+  }
   
   return 0;
 }
diff --git a/verifier/vstte20-benchmarks/make_tables.c b/verifier/vstte20-benchmarks/make_tables.c
index 4aeef4e..b356fb2 100644
--- a/verifier/vstte20-benchmarks/make_tables.c
+++ b/verifier/vstte20-benchmarks/make_tables.c
@@ -355,6 +355,18 @@ static FILE *open_file(uint32_t n, const char *suffix) {
   return f;
 }
 
+/*
+ * Close file f
+ * - return false if some output could not be written
+ */
+static bool close_file(FILE *f) {
+  bool ok;
+
+  ok = !ferror(f);
+  if (fclose(f) != 0) ok = false;
+  return ok;
+}
+
 int main(int argc, char *argv[]) {
   uint32_t q, psi, phi, n, log_n, i, inv_n, inv_psi, inv_phi;
   long x;
@@ -427,7 +439,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_declarations(f, &params);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.h'\n", n);
+    exit(EXIT_FAILURE);
+  }
 
   f = open_file(n, "c");
   if (f == NULL) {
@@ -435,7 +450,10 @@ int main(int argc, char *argv[]) {
     exit(EXIT_FAILURE);
   }
   print_tables(f, &params);
-  fclose(f);
+  if (!close_file(f)) {
+    fprintf(stderr, "failed to write file 'ntt%"PRIu32"_tables.c'\n", n);
+    exit(EXIT_FAILURE);
+  }
   
   return 0;
 }
-- 
2.43.0


From 9f68f10d9693fa35a4c792249fdc2cc1be10e872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:13 +0000
Subject: [PATCH 6/7] fix: ntt_asm: don't depend on the upper half of rsi

n is a 32bit argument, so the calling convention leaves the upper half of rsi
undefined. All array functions used the full register to compute addresses.
---
 src/ntt_asm.S | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index 69cdf68..9df5f57 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -130,6 +130,7 @@ not_supported:
         .balign 16
         .global _G(reduce_array_asm)
 _G(reduce_array_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -166,6 +167,7 @@ loop0:
         .balign 16
         .global _G(reduce_array_asm2)
 _G(reduce_array_asm2):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -199,6 +201,7 @@ loop0b:
         .balign 16
         .global _G(reduce_array_twice_asm)
 _G(reduce_array_twice_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -249,6 +252,7 @@ loop1:
         .balign 16
         .global _G(reduce_array_twice_asm2)
 _G(reduce_array_twice_asm2):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -291,6 +295,7 @@ loop1b:
         .balign 16
         .global _G(correct_asm)
 _G(correct_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm3, [q_x8+rip]
         vmovdqa ymm4, [q_minus1_x8+rip]
         mov rax, rdi
@@ -337,6 +342,7 @@ loop2:
         .balign 16
         .global _G(shift_array_asm)
 _G(shift_array_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
 	vmovdqa ymm3, [q_x8+rip]
 	vmovdqa ymm4, [half_q_x8+rip]
 	mov rax, rdi
@@ -410,6 +416,7 @@ loop_shift:
         .balign 16
         .global _G(mul_reduce_array16_asm)
 _G(mul_reduce_array16_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -451,6 +458,7 @@ loop3:
         .balign 16
         .global _G(mul_reduce_array16_asm2)
 _G(mul_reduce_array16_asm2):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa    ymm5, [perm0246+rip]
         vmovdqa    ymm6, [mask+rip]
         mov        rax, rdi
@@ -495,6 +503,7 @@ loop4:
         .balign 16
         .global _G(mul_reduce_array_asm)
 _G(mul_reduce_array_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -545,6 +554,7 @@ loop5:
         .balign 16
         .global _G(scalar_mul_reduce_array_asm)
 _G(scalar_mul_reduce_array_asm):        
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -665,6 +675,7 @@ loop6:
         .balign 16
         .global _G(ntt_red_ct_rev2std_asm)
 _G(ntt_red_ct_rev2std_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -864,6 +875,7 @@ ct_r2s_done:
         .balign 16
         .global _G(mulntt_red_ct_rev2std_asm)
 _G(mulntt_red_ct_rev2std_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -961,6 +973,7 @@ mct_r2s_size8_loop2:
         .balign 16
         .global _G(ntt_red_ct_std2rev_asm)
 _G(ntt_red_ct_std2rev_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1233,6 +1246,7 @@ ct_s2r_finish_size1:
         .balign 16
         .global _G(mulntt_red_ct_std2rev_asm)
 _G(mulntt_red_ct_std2rev_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1318,6 +1332,7 @@ mct_s2r_loop_inner:
         .balign 16
         .global _G(ntt_red_gs_rev2std_asm)
 _G(ntt_red_gs_rev2std_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1549,6 +1564,7 @@ gs_r2s_done:
         .balign 16
         .global _G(nttmul_red_gs_rev2std_asm)
 _G(nttmul_red_gs_rev2std_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1749,6 +1765,7 @@ mgs_r2s_done:
         .balign 16
         .global _G(ntt_red_gs_std2rev_asm)
 _G(ntt_red_gs_std2rev_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
@@ -1941,6 +1958,7 @@ gs_s2r_finish_loop:
         .balign 16
         .global _G(nttmul_red_gs_std2rev_asm)
 _G(nttmul_red_gs_std2rev_asm):
+        mov esi, esi            // n is 32 bits: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
-- 
2.43.0


From 14e7da24997a723fd3b0f962b436da0c3b3a85d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:13 +0000
Subject: [PATCH 7/7] fix: naive_ntt: products must be in the range [0 .. Q-1]

C's remainder has the sign of the dividend, so the naive products returned
negative coefficients although the headers say that the result is in [0 .. Q-1].
---
 src/naive_ntt.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/naive_ntt.c b/src/naive_ntt.c
index f7fb9b6..e5d3a07 100644
--- a/src/naive_ntt.c
+++ b/src/naive_ntt.c
@@ -67,9 +67,11 @@ void shuffle_with_table(int32_t *a, const uint16_t p[][2], uint32_t n) {
  */
 void mul_array16_naive(int32_t *a, uint32_t n, const uint16_t *p, int32_t q) {
   uint32_t i;
+  int32_t x;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * p[i]) % q;
+    x = (a[i] * p[i]) % q;
+    a[i] = x < 0 ? x + q : x;
   }
 }
 
@@ -95,9 +97,11 @@ void mul_array_naive(int32_t *c, uint32_t n, const int32_t *a, const int32_t *b,
  */
 void scalar_mul_array_naive(int32_t *a, uint32_t n, int32_t c, int32_t q) {
   uint32_t i;
+  int32_t x;
 
   for (i=0; i<n; i++) {
-    a[i] = (a[i] * c) % q;
+    x = (a[i] * c) % q;
+    a[i] = x < 0 ? x + q : x;
   }
 }
 
-- 
2.43.0

