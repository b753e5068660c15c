From d1d4185b51b46b2dcf32837616f33fabcb8c1b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:44 +0000
Subject: [PATCH 1/7] fix: mul_red overflowed int32_t for the largest products
 in its documented range

For 8796093022208 <= z <= 8796093026303, z >> 12 is 2^31, which does not fit
in int32_t, and 3 * x - y was then a signed overflow (undefined behaviour).
Compute the reduction in 64 bits; the result fits in 32 bits.
---
 src/ntt_red.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ntt_red.c b/src/ntt_red.c
index deef16f..7957a32 100644
--- a/src/ntt_red.c
+++ b/src/ntt_red.c
@@ -40,9 +40,7 @@ static int32_t mul_red(int32_t x, int32_t y) {
   int64_t z;
   z = (int64_t) x * y;
   assert(-8796042698752 <= z && z <= 8796093026303);
-  x = z & 4095;
-  y = z >> 12;
-  return 3 * x - y;
+  return 3 * (z & 4095) - (z >> 12); // in 64bits: z >> 12 may be 2^31
 }
 
 #if 0
-- 
2.43.0


From dfb8991f8e226904f57ca627cae9be78ba74790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:34 +0000
Subject: [PATCH 2/7] fix: AVX2 routines used the undefined upper half of rsi
 as part of the 32-bit size

---
 src/ntt_asm.S | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ntt_asm.S b/src/ntt_asm.S
index 69cdf68..ddebda3 100644
--- a/src/ntt_asm.S
+++ b/src/ntt_asm.S
@@ -130,6 +130,7 @@ not_supported:
         .balign 16
         .global _G(reduce_array_asm)
 _G(reduce_array_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -166,6 +167,7 @@ loop0:
         .balign 16
         .global _G(reduce_array_asm2)
 _G(reduce_array_asm2):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -199,6 +201,7 @@ loop0b:
         .balign 16
         .global _G(reduce_array_twice_asm)
 _G(reduce_array_twice_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -249,6 +252,7 @@ loop1:
         .balign 16
         .global _G(reduce_array_twice_asm2)
 _G(reduce_array_twice_asm2):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa ymm3, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -291,6 +295,7 @@ loop1b:
         .balign 16
         .global _G(correct_asm)
 _G(correct_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa ymm3, [q_x8+rip]
         vmovdqa ymm4, [q_minus1_x8+rip]
         mov rax, rdi
@@ -337,6 +342,7 @@ loop2:
         .balign 16
         .global _G(shift_array_asm)
 _G(shift_array_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
 	vmovdqa ymm3, [q_x8+rip]
 	vmovdqa ymm4, [half_q_x8+rip]
 	mov rax, rdi
@@ -410,6 +416,7 @@ loop_shift:
         .balign 16
         .global _G(mul_reduce_array16_asm)
 _G(mul_reduce_array16_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov rax, rdi
         lea rsi, [rdi+4*rsi]
@@ -451,6 +458,7 @@ loop3:
         .balign 16
         .global _G(mul_reduce_array16_asm2)
 _G(mul_reduce_array16_asm2):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa    ymm5, [perm0246+rip]
         vmovdqa    ymm6, [mask+rip]
         mov        rax, rdi
@@ -495,6 +503,7 @@ loop4:
         .balign 16
         .global _G(mul_reduce_array_asm)
 _G(mul_reduce_array_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -545,6 +554,7 @@ loop5:
         .balign 16
         .global _G(scalar_mul_reduce_array_asm)
 _G(scalar_mul_reduce_array_asm):        
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         vmovdqa ymm4, [mask+rip]
         mov     rax, rdi
         lea     rsi, [rdi+4*rsi]
@@ -665,6 +675,7 @@ loop6:
         .balign 16
         .global _G(ntt_red_ct_rev2std_asm)
 _G(ntt_red_ct_rev2std_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -864,6 +875,7 @@ ct_r2s_done:
         .balign 16
         .global _G(mulntt_red_ct_rev2std_asm)
 _G(mulntt_red_ct_rev2std_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         mov     rax, rdi                     // rax = start of array a
         mov     r9, rsi                      // r9 = copy of the array size
         lea     rsi, [rdi+4*rsi]             // rsi = end of array a
@@ -961,6 +973,7 @@ mct_r2s_size8_loop2:
         .balign 16
         .global _G(ntt_red_ct_std2rev_asm)
 _G(ntt_red_ct_std2rev_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1233,6 +1246,7 @@ ct_s2r_finish_size1:
         .balign 16
         .global _G(mulntt_red_ct_std2rev_asm)
 _G(mulntt_red_ct_std2rev_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         lea       r8, [rdi+4*rsi]         // r8 = end of array a
         vmovdqa   ymm4, [mask+rip]        // ymm4 = bitmask = 8 copies of 4095
 
@@ -1318,6 +1332,7 @@ mct_s2r_loop_inner:
         .balign 16
         .global _G(ntt_red_gs_rev2std_asm)
 _G(ntt_red_gs_rev2std_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1549,6 +1564,7 @@ gs_r2s_done:
         .balign 16
         .global _G(nttmul_red_gs_rev2std_asm)
 _G(nttmul_red_gs_rev2std_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         lea     rcx, [rdi+4*rsi]      // rcx -> end of array a
         lea     r8, [rdx+rsi]         // r8 --> multipliers for round 1
         shr     rsi, 1
@@ -1749,6 +1765,7 @@ mgs_r2s_done:
         .balign 16
         .global _G(ntt_red_gs_std2rev_asm)
 _G(ntt_red_gs_std2rev_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
@@ -1941,6 +1958,7 @@ gs_s2r_finish_loop:
         .balign 16
         .global _G(nttmul_red_gs_std2rev_asm)
 _G(nttmul_red_gs_std2rev_asm):
+        mov     esi, esi              // n is a 32-bit argument: clear the upper half of rsi
         lea      r11, [rdi+4*rsi]        // end of array a
         vmovdqa  ymm4, [mask+rip]        // bitmask
 /*
-- 
2.43.0


From 4032f781c1392f7cf322de94ff223b7bbd3f2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:57 +0000
Subject: [PATCH 3/7] fix: max_red_mul and min_red_mul did not handle w = 0

gcd4096(0) does not terminate and lmin(0, x) divides by zero. red(0 * x) is 0.
---
 src/red_bounds.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 795beb9..1ea8627 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -107,6 +107,12 @@ int64_t max_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(w * x) is 0 for all x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
@@ -171,6 +177,12 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
   
   assert(a <= b);
 
+  if (w == 0) {
+    // red(w * x) is 0 for all x
+    *m = a;
+    return 0;
+  }
+
   // pw = |w|. 
   // If w<0, we change a <= x <= b to -b <= -x <= -a
   pw = w;
-- 
2.43.0


From 31be3e3e8f99e1c76629ff2aea7888fd1470096b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:05 +0000
Subject: [PATCH 4/7] fix: red_mul bounds over an interval of multipliers were
 unsound for asymmetric intervals

The early exits of min/max_red_mul_interval assumed |x| <= b, which does not
follow from a <= x <= b, and the initial value 0 is not attained in general.
---
 src/red_bounds.c | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/red_bounds.c b/src/red_bounds.c
index 1ea8627..531324c 100644
--- a/src/red_bounds.c
+++ b/src/red_bounds.c
@@ -221,13 +221,17 @@ int64_t min_red_mul(int64_t a, int64_t b, int64_t w, int64_t *m) {
  * Maximum of red(w * x) for a <= x <= b and low <= w <= high.
  */
 int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *mw) {
-  int64_t r_max, x_max, w_max, r, x, w, d, l, h;
+  int64_t r_max, x_max, w_max, r, x, w, c, d, l, h;
 
   assert(a <= b && low <= high);
 
-  r_max = 0;
-  x_max = 0;
-  w_max = 0;
+  // start with a value that's attained
+  w_max = (low <= 0 && high >= 0) ? 0 : low;
+  x_max = a;
+  r_max = red(w_max * a);
+
+  // c = max(|x|) for a <= x <= b
+  c = (-a > b) ? -a : b;
 
   // negative values of w: l <= w < h
   l = low < 0 ? low : 0;
@@ -235,10 +239,10 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = l; w < h;  w++) {
     assert(w < 0);
 
-    // d = min (w*x)/2^m for |x| <= b
-    // so red(w*x) <= -d + 3*4095 for |x| <= b
+    // d = min (w*x)/2^m for |x| <= c
+    // so red(w*x) <= -d + 3*4095 for |x| <= c
     // also for any w' such that w <= w' < 0
-    d = divd(w * b);
+    d = divd(w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -256,8 +260,8 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   for (w = h; w > l; w --) {
     assert(w > 0);
 
-    // min of (w*x)/2^m is -(w * b)/2^m
-    d = divd(- w * b);
+    // min of (w*x)/2^m is -(w * c)/2^m
+    d = divd(- w * c);
     if ( -d + 3 * 4095 <= r_max) {
       break;
     }
@@ -279,23 +283,27 @@ int64_t max_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
   * Minimum of red(x * w) for a <= x <= b and low <= w <= high
   */
 int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, int64_t *m, int64_t *wm) {
-   int64_t r_min, x_min, w_min, r, x, w, d, l, h;
+   int64_t r_min, x_min, w_min, r, x, w, c, d, l, h;
 
    assert(a <= b && low <= high);
 
-   r_min = 0;
-   x_min = 0;
-   w_min = 0;
+   // start with a value that's attained
+   w_min = (low <= 0 && high >= 0) ? 0 : low;
+   x_min = a;
+   r_min = red(w_min * a);
+
+   // c = max(|x|) for a <= x <= b
+   c = (-a > b) ? -a : b;
 
    // negative values of w
    l = low < 0 ? low : 0;
-   h = high > 0 ? 0 : high + 1;
+   h = high >= 0 ? 0 : high + 1;
    for (w = l; w < h; w++) {
      assert(w < 0);
-     // d = max of (w * b)/2^m
-     // -b <= x ==> w * x <= -b w ==> divd(w * x) <= divd(-w * b) ==> - div(w * x) >= - d
+     // d = max of (w * x)/2^m for |x| <= c
+     // -c <= x ==> w * x <= -c w ==> divd(w * x) <= divd(-w * c) ==> - div(w * x) >= - d
      // ==> red(wx) >= -d
-     d = divd(- w * b);
+     d = divd(- w * c);
      if (-d >= r_min) {
        break;
      }
@@ -308,12 +316,12 @@ int64_t min_red_mul_interval(int64_t a, int64_t b, int64_t low, int64_t high, in
    }
 
    // positive values of w
-   l = low < 0 ? 0 : low - 1;
+   l = low <= 0 ? 0 : low - 1;
    h = high > 0 ? high : 0;
    for (w=h; w>l; w--) {
      assert(w > 0);
 
-     d = divd(w * b); // max of (w * b)/2^m for |x| <= b
+     d = divd(w * c); // max of (w * x)/2^m for |x| <= c
      if (-d >= r_min) {
        break;
      }
-- 
2.43.0


From bbadc96e1df21f9baa62d9b3f794c9862dc51e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:00 +0000
Subject: [PATCH 5/7] fix: abstract Gentleman-Sande transforms did not report
 overflow of the 32bit difference

---
 src/ntt_red_interval.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/ntt_red_interval.c b/src/ntt_red_interval.c
index 3b0ae4f..f5da12b 100644
--- a/src/ntt_red_interval.c
+++ b/src/ntt_red_interval.c
@@ -246,6 +246,17 @@ static void show_intervals(const char *prefix, uint32_t loop_counter, interval_t
 
 }
 
+/*
+ * Check overflow in the difference z = a[i] - a[j].
+ * The Gentleman-Sande variants compute this difference as a 32bit
+ * number before they multiply it, so it does not show up in array a.
+ */
+static void check_difference(uint32_t i, uint32_t j, const interval_t *z) {
+  if (z->min < (int64_t) INT32_MIN || z->max > (int64_t) INT32_MAX) {
+    printf("    Warnning: possible overflow for a[%"PRIu32"] - a[%"PRIu32"]: bounds = [%"PRId64", %"PRId64"]\n", i, j, z->min, z->max);
+  }
+}
+
 
 /*
  * COOLEY-TUKEY/INPUT IN BIT-REVERSE ORDER/OUTPUT IN STANDARD ORDER
@@ -690,6 +701,7 @@ void abstract_ntt_red_gs_rev2std(interval_t **a, uint32_t n, const int16_t *p) {
         x = a[s + d];
 	y = a[s];
 	z = sub(y, x);
+	check_difference(s, s + d, z);
 	a[s + d] = red_scale(w, z);
 	a[s] = add(y, x);
 	//        a[s + d] = mul_red(a[s] - x, w);
@@ -738,6 +750,7 @@ void abstract2_ntt_red_gs_rev2std(interval_t **a, uint32_t n, const interval_t *
         x = a[s + d];
 	y = a[s];
 	z = sub(y, x);
+	check_difference(s, s + d, z);
 	a[s + d] = red_mul(z, w);
 	a[s] = add(y, x);
 	//        a[s + d] = mul_red(a[s] - x, w);
@@ -787,6 +800,7 @@ void abstract_nttmul_red_gs_rev2std(interval_t **a, uint32_t n, const int16_t *p
         x = a[s + d];
 	y = a[s];
 	z = sub(y, x);
+	check_difference(s, s + d, z);
 	a[s + d] = red_scale(w, z);
 	a[s] = add(y, x);
 	//        a[s + d] = mul_red(a[s] - x, w);
@@ -824,6 +838,7 @@ void abstract2_nttmul_red_gs_rev2std(interval_t **a, uint32_t n, const interval_
         x = a[s + d];
 	y = a[s];
 	z = sub(y, x);
+	check_difference(s, s + d, z);
 	a[s + d] = red_mul(z, w);
 	a[s] = add(y, x);
 	//        a[s + d] = mul_red(a[s] - x, w);
@@ -883,6 +898,7 @@ void abstract_ntt_red_gs_std2rev(interval_t **a, uint32_t n, const int16_t *p) {
         x = a[s + t];
 	y = a[s];
 	z = sub(y, x);
+	check_difference(s, s + t, z);
 	a[s + t] = red_scale(w, z);
 	a[s] = add(y, x);
 	//        a[s + t] = mul_red(a[s] - x, w);
@@ -928,6 +944,7 @@ void abstract2_ntt_red_gs_std2rev(interval_t **a, uint32_t n, const interval_t *
         x = a[s + t];
 	y = a[s];
 	z = sub(y, x);
+	check_difference(s, s + t, z);
 	a[s + t] = red_mul(z, w);
 	a[s] = add(y, x);
 	//        a[s + t] = mul_red(a[s] - x, w);
@@ -974,6 +991,7 @@ void abstract_nttmul_red_gs_std2rev(interval_t **a, uint32_t n, const int16_t *p
         x = a[s + t];
 	y = a[s];
 	z = sub(y, x);
+	check_difference(s, s + t, z);
 	a[s + t] = red_scale(w, z);
 	a[s] = add(y, x);
 	//        a[s + t] = mul_red(a[s] - x, w);
@@ -1008,6 +1026,7 @@ void abstract2_nttmul_red_gs_std2rev(interval_t **a, uint32_t n, const interval_
         x = a[s + t];
 	y = a[s];
 	z = sub(y, x);
+	check_difference(s, s + t, z);
 	a[s + t] = red_mul(z, w);
 	a[s] = add(y, x);
 	//        a[s + t] = mul_red(a[s] - x, w);
-- 
2.43.0


From f04d50dc25bd77d791accfce53b8eb3e98915a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:00 +0000
Subject: [PATCH 6/7] fix: overflow detection in interval addition and
 subtraction relied on undefined behaviour

---
 src/intervals.c | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/intervals.c b/src/intervals.c
index 56869c8..5076646 100644
--- a/src/intervals.c
+++ b/src/intervals.c
@@ -79,26 +79,22 @@ interval_t *neg(const interval_t *a) {
 
 // addition of x and y with overflow detection
 static int64_t add64(int64_t x, int64_t y) {
-  int64_t z;
-
-  z = x + y;
-  if ((x < 0 && y < 0 && z >= 0) || (x >= 0 && y >= 0 && z < 0)) {
+  // check before adding: signed overflow is undefined
+  if ((y < 0 && x < INT64_MIN - y) || (y >= 0 && x > INT64_MAX - y)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" + %"PRId64"\n", x, y);
     exit(1);
   }
-  return z;
+  return x + y;
 }
 
 // subtraction: x - y with overflow detection
 static int64_t sub64(int64_t x, int64_t y) {
-  int64_t z;
-
-  z = x - y;
-  if ((x < 0 && y >= 0 && z >= 0) || (x >= 0 && y < 0 && z < 0)) {
+  // check before subtracting: signed overflow is undefined
+  if ((y < 0 && x > INT64_MAX + y) || (y >= 0 && x < INT64_MIN + y)) {
     fprintf(stderr, "Arithmetic overflow in %"PRId64" - %"PRId64"\n", x, y);
     exit(1);
   }
-  return z;
+  return x - y;
 }
 
 
@@ -107,9 +103,8 @@ static int64_t sub64(int64_t x, int64_t y) {
  */
 static uint64_t size(const interval_t *a) {
   assert(a->min <= a->max);
-  // assuming 2s complement, this gives the right answer even
-  // if there's an overflow.
-  return (uint64_t) (a->max - a->min);
+  // unsigned arithmetic: the difference may not fit in int64_t
+  return (uint64_t) a->max - (uint64_t) a->min;
 }
 
 /*
-- 
2.43.0


From b4dea27a50eb92edf94d33c2bb26d6c8f384af24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:01 +0000
Subject: [PATCH 7/7] fix: ntt_ct_bounds and ntt_gs_bounds store log_2(n) + 1
 bounds (documentation)

---
 src/red_bounds.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/red_bounds.h b/src/red_bounds.h
index ca34527..ffde4a8 100644
--- a/src/red_bounds.h
+++ b/src/red_bounds.h
@@ -81,7 +81,7 @@ extern int64_t gs_bound_fixed(int64_t b, int64_t w);
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bounds (must be of size log_2(n))
+ * Bounds for each round are stored in array bound (must be of size log_2(n) + 1)
  */
 extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
@@ -93,7 +93,7 @@ extern int64_t ntt_ct_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *
  * We assume the input coefficients a[i] satisfy |a[i]| <= b0.
  *
  * The final bound is returned.
- * Bounds for each round are stored in array bound (must be of size log_2(n))
+ * Bounds for each round are stored in array bound (must be of size log_2(n) + 1)
  */
 extern int64_t ntt_gs_bounds(int64_t b0, uint32_t n, const int16_t *p, int64_t *bound);
 
-- 
2.43.0

