From 6e6f5171d131a67822bef05cb9802f957df21f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 01/77] fix: zlema read before its input for periods 1 and 2

---
 indicators/zlema.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/indicators/zlema.cc b/indicators/zlema.cc
index e1926b7..69ff6db 100644
--- a/indicators/zlema.cc
+++ b/indicators/zlema.cc
@@ -9,7 +9,8 @@
 
 
 int ti_zlema_start(TI_REAL const *options) {
-    return ((int)options[0] - 1) / 2 - 1;
+    const int lag = ((int)options[0] - 1) / 2;
+    return lag > 0 ? lag - 1 : 0;
 }
 
 
@@ -26,11 +27,11 @@ int ti_zlema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
-    TI_REAL val = input[lag-1];
+    int i = ti_zlema_start(options);
+    TI_REAL val = input[i];
     *output++ = val;
 
-    int i;
-    for (i = lag; i < size; ++i) {
+    for (++i; i < size; ++i) {
         TI_REAL c = input[i];
         TI_REAL l = input[i-lag];
 
-- 
2.43.0


From 6fc6b50fa9f6fe947f4372ebaed2d90c53ed8393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 02/77] fix: dpo read before its input for periods 1 and 2

---
 indicators/dpo.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/indicators/dpo.cc b/indicators/dpo.cc
index abc51f2..1310aef 100644
--- a/indicators/dpo.cc
+++ b/indicators/dpo.cc
@@ -9,7 +9,9 @@
 
 
 int ti_dpo_start(TI_REAL const *options) {
-    return (int)options[0]-1;
+    const int period = (int)options[0];
+    const int back = period / 2 + 1;
+    return period-1 > back ? period-1 : back;
 }
 
 
@@ -32,12 +34,16 @@ int ti_dpo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum += input[i];
     }
 
-    *output++ = input[period-1-back] - (sum * scale);
+    if (period-1 >= back) {
+        *output++ = input[period-1-back] - (sum * scale);
+    }
 
     for (i = period; i < size; ++i) {
         sum += input[i];
         sum -= input[i-period];
-        *output++ = input[i-back] - (sum * scale);
+        if (i >= back) {
+            *output++ = input[i-back] - (sum * scale);
+        }
     }
 
     assert(output - outputs[0] == size - ti_dpo_start(options));
-- 
2.43.0


From 89fa74d79d5e1f728628e759b4ceb25370ae9927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 03/77] fix: cvi used an uninitialised value for period 1

---
 indicators/cvi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 2327a0a..30588dd 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -31,6 +31,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     ti_buffer *lag = ti_buffer_new(period);
 
     TI_REAL val = high[0]-low[0];
+    ti_buffer_qpush(lag, val);
 
     int i;
     for (i = 1; i < period*2-1; ++i) {
-- 
2.43.0


From 188d416ba4467641ebbfb3e5e29c89e18b0a1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 04/77] fix: trix started its inner averages at zero for period
 1

---
 indicators/trix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trix.cc b/indicators/trix.cc
index 88b334d..cdabad2 100644
--- a/indicators/trix.cc
+++ b/indicators/trix.cc
@@ -27,7 +27,7 @@ int ti_trix(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     TI_REAL ema1 = input[0];
-    TI_REAL ema2 = 0, ema3 = 0;
+    TI_REAL ema2 = ema1, ema3 = ema1;
 
     int i;
     for (i = 1; i < start; ++i) {
-- 
2.43.0


From 222dccb35674ed58e8c354e61ed9f51937019971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 05/77] fix: rmta processed the first bar twice for period 1

---
 indicators/rmta.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/indicators/rmta.cc b/indicators/rmta.cc
index 6e99da6..c7b91cf 100644
--- a/indicators/rmta.cc
+++ b/indicators/rmta.cc
@@ -29,13 +29,16 @@ int ti_rmta(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL b = (1. - alpha) * input[0] + input[0];
     TI_REAL rmta = (1. - alpha) * input[0] + alpha * (input[0] + b);
 
-    for (int i = 1; i < period-1; ++i) {
+    if (period == 1) { *output++ = rmta; }
+
+    int i = 1;
+    for (; i < period-1; ++i) {
         TI_REAL next_b = (1. - alpha) * b + input[i];
         rmta = (1. - alpha) * rmta + alpha * (input[i] + next_b - b);
         b = next_b;
     }
 
-    for (int i = period-1; i < size; ++i) {
+    for (; i < size; ++i) {
         TI_REAL next_b = (1. - alpha) * b + input[i];
         rmta = (1. - alpha) * rmta + alpha * (input[i] + next_b - b);
         b = next_b;
-- 
2.43.0


From 3a8ed64a3ac72e24cd5bcd41f8c3ba6e1ca50f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 06/77] fix: hma returned NaN for period 1

---
 indicators/hma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index ea30265..b3c6245 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -29,7 +29,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     /* HMA(input, N) = WMA((2 * WMA(input, N/2) - WMA(input, N)), sqrt(N)) */
     /* Need to do three WMAs, with periods N, N/2, and sqrt N.*/
 
-    const int period2 = (int)(period / 2);
+    const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
     const TI_REAL weights = period * (period+1) / 2;
-- 
2.43.0


From 2eb55e210b15df0a9909e0928f8270c31029e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:50 +0000
Subject: [PATCH 07/77] fix: the linear regression family returned NaN for
 period 1

---
 indicators/trend.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trend.h b/indicators/trend.h
index 847185d..d4f2e91 100644
--- a/indicators/trend.h
+++ b/indicators/trend.h
@@ -49,7 +49,7 @@
     x += (period); \
     x2 += (period) * (period); \
  \
-    const TI_REAL bd = 1.0 / ((period) * x2 - x * x); \
+    const TI_REAL bd = (period) > 1 ? 1.0 / ((period) * x2 - x * x) : 0; /* One point has no slope. */ \
  \
     for (i = (period)-1; i < (size); ++i) { \
         xy += (input)[i] * (period); \
-- 
2.43.0


From 12c192dff1bbcc7336133b98a6b32420eaa61530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 08/77] fix: vwap divided by zero when a window has no volume

---
 indicators/vwap.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1f4eed7..5d2fdb3 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -34,14 +34,14 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         den += volume[i];
     }
     if (i > 0 && progress == 1) {
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
     }
     for (; i < size; ++i, ++progress) {
         num += (high[i] + low[i] + close[i]) / 3. * volume[i]
             - (high[i-(int)period] + low[i-(int)period] + close[i-(int)period]) / 3. * volume[i-(int)period];
         den += volume[i] - volume[i-(int)period];
 
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
     }
 
     return TI_OKAY;
@@ -72,7 +72,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         vsum += volume[i];
     }
 
-    *vwap++ = sum / vsum;
+    *vwap++ = vsum ? sum / vsum : 0;
 
     for (i = period; i < size; ++i) {
         sum += typprice[i] * volume[i];
@@ -80,7 +80,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         vsum += volume[i];
         vsum -= volume[i-(int)period];
 
-        *vwap++ = sum / vsum;
+        *vwap++ = vsum ? sum / vsum : 0;
     }
 
     free(typprice);
@@ -181,7 +181,7 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
 
-        *vwap++ = num ? num / den : 0;
+        *vwap++ = den ? num / den : 0;
 
         num -= (price_high[period-1] + price_low[period-1] + price_close[period-1]) / 3. * price_volume[period-1];
         den -= price_volume[period-1];
-- 
2.43.0


From af51854e999ec8f16fc251df8fe7fbb102d5d0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 09/77] fix: vwma divided by zero when a window has no volume

---
 indicators/vwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vwma.cc b/indicators/vwma.cc
index 43b5b63..2ff7aa3 100644
--- a/indicators/vwma.cc
+++ b/indicators/vwma.cc
@@ -33,7 +33,7 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         vsum += volume[i];
     }
 
-    *output++ = sum ? sum / vsum : 0;
+    *output++ = vsum ? sum / vsum : 0;
 
     for (i = period; i < size; ++i) {
         sum += input[i] * volume[i];
@@ -41,7 +41,7 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         vsum += volume[i];
         vsum -= volume[i-period];
 
-        *output++ = sum ? sum / vsum : 0;
+        *output++ = vsum ? sum / vsum : 0;
     }
 
     assert(output - outputs[0] == size - ti_vwma_start(options));
-- 
2.43.0


From 6fd63ff63e007e3a084a69e5a79fc48af9cb4c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 10/77] fix: hfsma stream sized its price window by k instead
 of sma_period

---
 indicators/hfsma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b27cad0..5d7ab61 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -156,10 +156,10 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     try {
         ptr->state.a.resize(2*k+1);
-        ptr->state.price.resize(2*k+1);
+        ptr->state.price.resize(sma_period);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 5a87705c0de4819f18f6ca5ef1d8d021beb4cd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 11/77] fix: gf3 used the B0 coefficient in place of A1, A2 and
 A3

---
 indicators/gf3.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/indicators/gf3.cc b/indicators/gf3.cc
index f2a9e0f..9745d57 100644
--- a/indicators/gf3.cc
+++ b/indicators/gf3.cc
@@ -38,9 +38,9 @@ int ti_gf3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -66,9 +66,9 @@ DONTOPTIMIZE int ti_gf3_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -117,9 +117,9 @@ int ti_gf3_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     const int idx = period/2-1;
     ptr->constants.B0 = tables.B0[idx];
-    ptr->constants.A1 = tables.B0[idx];
-    ptr->constants.A2 = tables.B0[idx];
-    ptr->constants.A3 = tables.B0[idx];
+    ptr->constants.A1 = tables.A1[idx];
+    ptr->constants.A2 = tables.A2[idx];
+    ptr->constants.A3 = tables.A3[idx];
     ptr->constants.csum_recipr = 1. / (ptr->constants.B0 + ptr->constants.A1 + ptr->constants.A2 + ptr->constants.A3);
 
     return TI_OKAY;
-- 
2.43.0


From 293b4b5b704c0b77f03596aed04653a9eeecd689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 12/77] fix: gf4 read and wrote past its arrays for inputs
 shorter than 5 bars

---
 indicators/gf4.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 0260cb5..dc76ba7 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -51,7 +51,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
-- 
2.43.0


From 543539515692796a3956865bba2b81143ccdc156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:17 +0000
Subject: [PATCH 13/77] fix: ultosc read before its window when the periods are
 equal

---
 indicators/ultosc.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index db0f267..8589dfe 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -51,25 +51,25 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         r_short_sum += r;
         r_medium_sum += r;
 
-        ti_buffer_push(bp_buf, bp);
-        ti_buffer_push(r_buf, r);
-
         /* The long sum takes care of itself, but we're piggy-backing
          * the medium and short sums off the same buffers. */
         if (i > short_period) {
-            int short_index = bp_buf->index - short_period - 1;
+            int short_index = bp_buf->index - short_period;
             if (short_index < 0) short_index += long_period;
             bp_short_sum -= bp_buf->vals[short_index];
             r_short_sum -= r_buf->vals[short_index];
 
             if (i > medium_period) {
-                int medium_index = bp_buf->index - medium_period - 1;
+                int medium_index = bp_buf->index - medium_period;
                 if (medium_index < 0) medium_index += long_period;
                 bp_medium_sum -= bp_buf->vals[medium_index];
                 r_medium_sum -= r_buf->vals[medium_index];
             }
         }
 
+        ti_buffer_push(bp_buf, bp);
+        ti_buffer_push(r_buf, r);
+
         if (i >= long_period) {
             const TI_REAL first = bp_short_sum ? 4 * bp_short_sum / r_short_sum : 0;
             const TI_REAL second = bp_medium_sum ? 2 * bp_medium_sum / r_medium_sum : 0;
-- 
2.43.0


From 35bcd21a1e8b345c3ed2b8e72108018d1d907811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 14/77] fix: kst read and wrote past its arrays for inputs
 shorter than its start

---
 indicators/kst.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 9f6560a..43e9811 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -54,6 +54,7 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
             return TI_INVALID_OPTION;
         }
     }
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
 
     TI_REAL max_ma;
     MAX4(max_ma, ma1, ma2, ma3, ma4);
@@ -121,6 +122,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
             return TI_INVALID_OPTION;
         }
     }
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
 
     int size_roc[4];
     int size_ema[4];
-- 
2.43.0


From 84fc51b3325569e2723097920d636ab86e7893ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 15/77] fix: pvt dropped its running total on bars without
 volume

---
 indicators/pvt.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index cd78758..a2f5019 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -24,10 +24,10 @@ int ti_pvt(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 1;
     for (; i < 2 && i < size; ++i) {
-        *pvt++ = volume[i] && volume[i-1] ? volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1] : 0;
+        *pvt++ = volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1];
     }
     for (; i < size; i++) {
-        *pvt = volume[i] && volume[i-1] ? *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1] : 0;
+        *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1];
         pvt++;
     }
 
@@ -94,7 +94,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     } 
  
     if (progress == 0 && index < size) {
-        last_pvt = volume[index] && starting ? volume[index] * (close[index] - last_close) / last_close + starting : 0;
+        last_pvt = volume[index] * (close[index] - last_close) / last_close + starting;
         last_close = close[index];
 
         *pvt++ = last_pvt;
@@ -104,7 +104,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     }
 
     for (; index < size; index++) {
-        last_pvt += volume[index] && last_pvt ? volume[index] * (close[index] - last_close) / last_close : 0;
+        last_pvt += volume[index] * (close[index] - last_close) / last_close;
         last_close = close[index];
 
         *pvt++ = last_pvt;
-- 
2.43.0


From be0bf3182b520909764f827ab9d68e0d6fe49c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 16/77] fix: ce dropped its first output for period 1

---
 indicators/ce.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index b4ef418..9e2202c 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -50,6 +50,10 @@ int ti_ce(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
         min = low[i];
         max_idx = 0;
         min_idx = 0;
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (; i < period-1 && i < size; ++i) {
         const TI_REAL truerange = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -243,6 +247,11 @@ int ti_ce_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         max_idx = progress;
         min_idx = progress;
 
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
+
         prev_close = close[i];
     }
     for (i; progress < 0 && i < size; ++i, ++progress, step(price_high, price_low)) {
-- 
2.43.0


From 2fccb796c3d5486ed127480fe073b7a0d8d11219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 17/77] fix: mhlma dropped its first output for ma_period 1

---
 indicators/mhlma.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 38957b8..5b93da1 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -49,6 +49,12 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; i < period && i < ma_period-1 && i < size; ++i, step(mhl)) {
         if (hh <= series[i]) {
@@ -234,6 +240,12 @@ int ti_mhlma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+            sum -= mhl[ma_period-1];
+        }
     }
     for (; progress < -ma_period+1 + period && progress < 0 && i < size; ++i, ++progress, step(mhl, price)) {
         price = series[i];
-- 
2.43.0


From 64cfd3a40f377341b89fec688699e939539a2528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:54 +0000
Subject: [PATCH 18/77] fix: smi dropped its first output for q_period 1

---
 indicators/smi.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index 8f65e5b..03e0950 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -34,21 +34,15 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL ema_s_num;
     TI_REAL ema_r_den;
     TI_REAL ema_s_den;
-    TI_REAL ll;
-    TI_REAL hh;
-    int hh_idx;
-    int ll_idx;
+    TI_REAL ll = std::numeric_limits<TI_REAL>::infinity();
+    TI_REAL hh = -std::numeric_limits<TI_REAL>::infinity();
+    int hh_idx = 0;
+    int ll_idx = 0;
 
     TI_REAL var1;
 
     int i = 0;
 
-    for (; i < size && progress == -q_period + 1; ++i, ++progress) {
-        hh = high[i];
-        hh_idx = progress;
-        ll = low[i];
-        ll_idx = progress;
-    }
     for (; i < size && progress < 0; ++i, ++progress) {
         if (hh <= high[i]) {
             hh = high[i];
-- 
2.43.0


From 5d24372ce3ea74701f2f5c75874dba9a74a1fef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:10 +0000
Subject: [PATCH 19/77] fix: cmi dropped its first output for period 1 and
 freed its stream as the base type

---
 indicators/cmi.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7dadbea..a0d5760 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -44,6 +44,10 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ll = tr;
         hh_idx = 0;
         ll_idx = 0;
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr[period-1];
+        }
     }
     for (; i < period-1 && i < size; ++i, step(tr)) {
         tr = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -156,7 +160,7 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 }
 
 void ti_cmi_stream_free(ti_stream *stream) {
-    delete stream;
+    delete static_cast<ti_cmi_stream*>(stream);
 }
 
 int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
@@ -186,6 +190,10 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         ll = tr;
         hh_idx = progress;
         ll_idx = progress;
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr[period-1];
+        }
     }
     for (; progress < 0 && i < size; ++i, ++progress, step(tr, price_close)) {
         price_close = close[i];
-- 
2.43.0


From d5894beba27dfdd80f9df5071343176ee75d3818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 20/77] fix: arsi stream read past its price window for a small
 cycpart

---
 indicators/arsi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index b329f98..69767c6 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,7 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(cycpart * 50 + 1);
+    ptr->state.Price.resize(std::max<int>(4, cycpart * 50 + 1));
 
     return TI_OKAY;
 }
-- 
2.43.0


From dd1152b294d5a421ba86d6e9bf59e51eb4066d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 21/77] fix: mesastoch read past its filter window for periods
 1 and 2

---
 indicators/mesastoch.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 2c3ce5d..8654626 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -40,7 +40,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     int highestC_idx;
     int lowestC_idx;
 
-    ringbuf<0> filt(period);
+    ringbuf<0> filt(std::max(period, 3));
     ringbuf<3> HP;
     ringbuf<2> stoc;
     ringbuf<3> result;
@@ -77,7 +77,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             highestC_idx = i;
             highestC = filt;
         } else if (highestC_idx == i - period) {
-            TI_REAL* it = std::max_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_max(period);
             highestC = *it;
             highestC_idx = i - filt.iterator_to_age(it);
         }
@@ -85,7 +85,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             lowestC_idx = i;
             lowestC = filt;
         } else if (lowestC_idx == i - period) {
-            TI_REAL* it = std::min_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_min(period);
             lowestC = *it;
             lowestC_idx = i - filt.iterator_to_age(it);
         }
@@ -110,7 +110,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     if (period < 1) { return TI_INVALID_OPTION; }
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
 
-    std::deque<TI_REAL> filt(period);
+    std::deque<TI_REAL> filt(std::max(period, 3));
     std::deque<TI_REAL> HP(3);
     std::deque<TI_REAL> stoc(2);
     std::deque<TI_REAL> result(3);
@@ -157,8 +157,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c1 = 1 - c2 - c3;
         filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
 
-        highestC = *std::max_element(filt.begin(), filt.end());
-        lowestC = *std::min_element(filt.begin(), filt.end());
+        highestC = *std::max_element(filt.begin(), filt.begin() + period);
+        lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
         stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
@@ -225,7 +225,7 @@ int ti_mesastoch_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.c1 = 1 - (ptr->constants.c2) - (ptr->constants.c3);
 
     try {
-        ptr->store.filt.resize(period);
+        ptr->store.filt.resize(std::max(period, 3));
     } catch (std::bad_alloc& e) {
         delete ptr;
         return TI_OUT_OF_MEMORY;
-- 
2.43.0


From 85306395435a13388a873d16279435e766cf2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 22/77] fix: hwma indexed its coefficient table before
 validating the period

---
 indicators/hwma.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/hwma.cc b/indicators/hwma.cc
index a42fbf5..3c81645 100644
--- a/indicators/hwma.cc
+++ b/indicators/hwma.cc
@@ -34,10 +34,10 @@ int ti_hwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const int period = options[0];
     TI_REAL *hwma = outputs[0];
 
-    auto &c = tables.coefficients[period-7];
-
     if (period < 7 || period > 13) { return TI_INVALID_OPTION; }
 
+    auto &c = tables.coefficients[period-7];
+
     for (int i = period-1; i < size; ++i) {
         TI_REAL filt = 0;
         for (int j = 0; j < period; ++j) {
-- 
2.43.0


From 33e8c03eb062117968b26c5bdce732c37b4456b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 23/77] fix: kc stream accepted periods below 1

---
 indicators/kc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/kc.cc b/indicators/kc.cc
index b9c1cc1..45f27b3 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -90,7 +90,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL multiple = options[1];
 
-    if (period < 0) { return TI_INVALID_OPTION; }
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
     ti_kc_stream *ptr = new ti_kc_stream();
-- 
2.43.0


From 9518a3df3f291df293d9fa296cb8b3e04630c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 24/77] fix: vi reported an invalid option for inputs shorter
 than its start

---
 indicators/vi.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9f2133d..1e5a4e5 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -26,7 +26,8 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
@@ -61,7 +62,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     std::vector<TI_REAL> vm_p(size);
     std::vector<TI_REAL> vm_m(size);    
-- 
2.43.0


From c71e4decc98b0fc5b6bcbdd8629d2a0fe2581b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 25/77] fix: decay and edecay accepted periods below 1

---
 indicators/decay.cc  | 2 ++
 indicators/edecay.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/indicators/decay.cc b/indicators/decay.cc
index 3d7fbec..a705426 100644
--- a/indicators/decay.cc
+++ b/indicators/decay.cc
@@ -20,6 +20,8 @@ int ti_decay(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     const int period = (int)options[0];
     const TI_REAL scale = 1.0 / period;
 
+    if (period < 1) return TI_INVALID_OPTION;
+
     int i = 0;
     for (; i < 1 && i < size; ++i) {
         *output++ = input[0];
diff --git a/indicators/edecay.cc b/indicators/edecay.cc
index 3554ba6..ba9829f 100644
--- a/indicators/edecay.cc
+++ b/indicators/edecay.cc
@@ -20,6 +20,8 @@ int ti_edecay(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *output = outputs[0];
     const TI_REAL scale = 1.0 - 1.0 / period;
 
+    if (period < 1) return TI_INVALID_OPTION;
+
     int i = 0;
     for (; i < 1 && i < size; ++i) {
         *output++ = input[0];
-- 
2.43.0


From ca2c38f6cc9b24f69259315c4ff976661e4a5155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 26/77] fix: stddev and stderr returned a negative variance
 instead of a deviation

---
 indicators/stddev.cc | 4 ++--
 indicators/stderr.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/stddev.cc b/indicators/stddev.cc
index 3d0ab82..11318bf 100644
--- a/indicators/stddev.cc
+++ b/indicators/stddev.cc
@@ -35,7 +35,7 @@ int ti_stddev(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     {
         TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        s2s2 = s2s2 < 0.0 ? 0.0 : sqrt(s2s2);
         *output++ = s2s2;
     }
 
@@ -47,7 +47,7 @@ int ti_stddev(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 -= input[i-period] * input[i-period];
 
         TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        s2s2 = s2s2 < 0.0 ? 0.0 : sqrt(s2s2);
         *output++ = s2s2;
     }
 
diff --git a/indicators/stderr.cc b/indicators/stderr.cc
index 4094c7b..9bc8b13 100644
--- a/indicators/stderr.cc
+++ b/indicators/stderr.cc
@@ -37,7 +37,7 @@ int ti_stderr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     {
         TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        s2s2 = s2s2 < 0.0 ? 0.0 : sqrt(s2s2);
         *output++ = mul * s2s2;
     }
 
@@ -49,7 +49,7 @@ int ti_stderr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 -= input[i-period] * input[i-period];
 
         TI_REAL s2s2 = (sum2 * scale - (sum * scale) * (sum * scale));
-        if (s2s2 > 0.0) s2s2 = sqrt(s2s2);
+        s2s2 = s2s2 < 0.0 ? 0.0 : sqrt(s2s2);
         *output++ = mul * s2s2;
     }
 
-- 
2.43.0


From ad1bdc16103f8043ae9bb7a077d71bfffdda714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 27/77] fix: var returned a negative variance on constant data

---
 indicators/var.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indicators/var.cc b/indicators/var.cc
index 8f09537..16d5ae9 100644
--- a/indicators/var.cc
+++ b/indicators/var.cc
@@ -8,6 +8,7 @@
 
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_var_start(TI_REAL const *options) {
@@ -34,7 +35,7 @@ int ti_var(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum2 += input[i] * input[i];
     }
 
-    *output++ = sum2 * scale - (sum * scale) * (sum * scale);
+    *output++ = MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale));
 
     for (i = period; i < size; ++i) {
         sum += input[i];
@@ -43,7 +44,7 @@ int ti_var(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        *output++ = sum2 * scale - (sum * scale) * (sum * scale);
+        *output++ = MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale));
     }
 
     assert(output - outputs[0] == size - ti_var_start(options));
-- 
2.43.0


From 88d197307285719690028c86452e2b6ada639de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 28/77] fix: bbands returned NaN when rounding made the
 variance negative

---
 indicators/bbands.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indicators/bbands.cc b/indicators/bbands.cc
index d312c3e..69b31d6 100644
--- a/indicators/bbands.cc
+++ b/indicators/bbands.cc
@@ -6,6 +6,7 @@
 
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_bbands_start(TI_REAL const *options) {
@@ -36,7 +37,7 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 += input[i] * input[i];
     }
 
-    TI_REAL sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+    TI_REAL sd = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale)));
     *middle = sum * scale;
     *lower++ = *middle - stddev * sd;
     *upper++ = *middle + stddev * sd;
@@ -49,7 +50,7 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+        sd = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale)));
         *middle = sum * scale;
         *upper++ = *middle + stddev * sd;
         *lower++ = *middle - stddev * sd;
-- 
2.43.0


From e53c1e3cc7fd1e7c8231be56b5891e0ea272fa6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 29/77] fix: volatility returned NaN when rounding made the
 variance negative

---
 indicators/volatility.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indicators/volatility.cc b/indicators/volatility.cc
index 8a4871b..4a7aa6a 100644
--- a/indicators/volatility.cc
+++ b/indicators/volatility.cc
@@ -8,6 +8,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 #define CHANGE(i) (input[i-1] ? input[i]/input[i-1]-1.0 : 0)
 
@@ -38,7 +39,7 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum2 += c * c;
     }
 
-    *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+    *output++ = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale))) * annual;
 
     for (i = period+1; i < size; ++i) {
         const TI_REAL c = CHANGE(i);
@@ -49,7 +50,7 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum -= cp;
         sum2 -= cp * cp;
 
-        *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+        *output++ = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale))) * annual;
     }
 
     assert(output - outputs[0] == size - ti_volatility_start(options));
-- 
2.43.0


From 30d1877667838312b7a52426670fc475388843e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 30/77] fix: emsd returned NaN when rounding made the variance
 negative

---
 indicators/emsd.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 1b9cc41..b25ccd5 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -42,7 +42,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -53,7 +53,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -86,7 +86,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - pow(sum/period, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -97,7 +97,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -184,7 +184,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - pow(sum*period_reciprocal, 2);
         ema = variance;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
@@ -197,7 +197,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal);
         ema = (variance - ema) * 2 * ma_period_plus1_reciprocal + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(MAX(0.0, variance));
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
-- 
2.43.0


From 710de32f64dfe6a34d5d2ac6a12aacce47127241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 31/77] fix: vidya froze when rounding made a variance negative

---
 indicators/vidya.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 4c89e29..76f68ec 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -8,6 +8,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_vidya_start(TI_REAL const *options) {
@@ -54,8 +55,8 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     *output++ = val;
 
     if (long_period - 1 < size) {
-        TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
-        TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
+        TI_REAL short_stddev = sqrt(MAX(0.0, short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div)));
+        TI_REAL long_stddev = sqrt(MAX(0.0, long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div)));
         TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
@@ -78,8 +79,8 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         short_sum2 -= input[i-short_period] * input[i-short_period];
 
         {
-            TI_REAL short_stddev = sqrt(short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div));
-            TI_REAL long_stddev = sqrt(long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div));
+            TI_REAL short_stddev = sqrt(MAX(0.0, short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div)));
+            TI_REAL long_stddev = sqrt(MAX(0.0, long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div)));
             TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
             if (k != k) k = 0;
             k *= alpha;
-- 
2.43.0


From 1b1794610462eabaf2fea36fd1c14ca89b62b20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:06 +0000
Subject: [PATCH 32/77] fix: frama stream accepted an average_period below 2

---
 indicators/frama.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/frama.cc b/indicators/frama.cc
index 341612d..6c1adf4 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -141,6 +141,7 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (average_period < 2) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
 
     ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
-- 
2.43.0


From 2b42a78f6c78eb316debbaad4fff01c0c90ed9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:37 +0000
Subject: [PATCH 33/77] fix: five reference implementations ran past inputs
 shorter than their start

---
 indicators/cmi.cc  | 1 +
 indicators/dwma.cc | 1 +
 indicators/lma.cc  | 1 +
 indicators/pvt.cc  | 2 ++
 indicators/vwap.cc | 1 +
 5 files changed, 6 insertions(+)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index a0d5760..8cf54a2 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -97,6 +97,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
     TI_REAL *tr = new TI_REAL[size];
     TI_REAL *sum = new TI_REAL[size-(int)period+1];
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 14dc5df..bd645b5 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -81,6 +81,7 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *dwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_dwma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> smooth1(size-period+1);
     TI_REAL *arr[1] = {smooth1.data()};
diff --git a/indicators/lma.cc b/indicators/lma.cc
index 899d200..ca0dafd 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -59,6 +59,7 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *lma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_lma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> wma_price(size-period+1);
     std::vector<TI_REAL> sma_price(size-period+1);
diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index a2f5019..e74a7ea 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -40,6 +40,8 @@ DONTOPTIMIZE int ti_pvt_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     
     TI_REAL *pvt = outputs[0];
 
+    if (size <= ti_pvt_start(options)) { return TI_OKAY; }
+
     *pvt++ = volume[1] * (close[1] - close[0]) / close[0] + volume[0];
     for (int i = 2; i < size; i++) {
         *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i - 1]) / close[i - 1];
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 5d2fdb3..83fad3d 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -58,6 +58,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_vwap_start(options)) { return TI_OKAY; }
 
     int outsize = size - ti_typprice_start(&period);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-- 
2.43.0


From a03c2f4372342c8c6f28bfc8854260b1748348b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:38 +0000
Subject: [PATCH 34/77] fix: ehma reference truncated its fractional periods

---
 indicators/ehma.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 72634dd..7af5f05 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -68,19 +68,21 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     TI_REAL n = period;
     TI_REAL n05 = sqrt(period);
 
-    TI_REAL* arr_[1];
+    // ti_ema takes integral periods only, and n2 and n05 need not be
+    auto ema = [size](TI_REAL const *in, TI_REAL period, TI_REAL *out) {
+        for (int i = 0; i < size; ++i) {
+            out[i] = i == 0 ? in[i] : (in[i] - out[i-1]) * 2. / (period + 1.) + out[i-1];
+        }
+    };
 
-    arr_[0] = ema_n2.data();
-    ti_ema(size, &series, &n2, arr_);
-    arr_[0] = ema_n.data();
-    ti_ema(size, &series, &n, arr_);
+    ema(series, n2, ema_n2.data());
+    ema(series, n, ema_n.data());
 
     for (int i = 0; i < size; ++i) {
         subtr[i] = 2. * ema_n2[i] - ema_n[i];
     }
 
-    arr_[0] = subtr.data();
-    ti_ema(size, arr_, &n05, outputs);
+    ema(subtr.data(), n05, outputs[0]);
 
     return TI_OKAY;
 }
-- 
2.43.0


From 293e05f63decdff3013f7e5317e378bf69d104d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:19 +0000
Subject: [PATCH 35/77] fix: vidya read past an input of long_period - 1 bars

---
 indicators/vidya.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 76f68ec..488eed8 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -41,7 +41,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum2 = 0;
 
     int i;
-    for (i = 0; i < long_period; ++i) {
+    for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
-- 
2.43.0


From 6b67d83df2f2b934ba583ad2b07cc3f5c48bf7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:34 +0000
Subject: [PATCH 36/77] fix: keep ti_mesastoch_ref inside inputs shorter than
 its warm-up

---
 indicators/mesastoch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 8654626..f8bd4a4 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -124,7 +124,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     TI_REAL lowestC;
 
     int i = 2;
-    for (; i < ti_mesastoch_start(options); ++i) {
+    for (; i < ti_mesastoch_start(options) && i < size; ++i) {
         filt.pop_back(); filt.push_front(0);
         HP.pop_back(); HP.push_front(0);
         stoc.pop_back(); stoc.push_front(0);
-- 
2.43.0


From 2adff6d250988d24f523d1f32f2765a03b683096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:34 +0000
Subject: [PATCH 37/77] fix: return early from ti_t3_ref on empty input

---
 indicators/t3.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/t3.cc b/indicators/t3.cc
index a197159..b113b7c 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -84,6 +84,7 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (v < 0) { return TI_INVALID_OPTION; }
+    if (size <= ti_t3_start(options)) { return TI_OKAY; }
 
     auto GD = [period, v](const std::vector<TI_REAL> &input) -> std::vector<TI_REAL> {
         const int size = input.size();
-- 
2.43.0


From b0606f3523781b1dd26aaf4462c4c5a5d69f91c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:31 +0000
Subject: [PATCH 38/77] fix: vidya turned to NaN for good when rounding left
 the short window more variance than a flat long one

---
 indicators/vidya.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 488eed8..0c78508 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -57,7 +57,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (long_period - 1 < size) {
         TI_REAL short_stddev = sqrt(MAX(0.0, short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div)));
         TI_REAL long_stddev = sqrt(MAX(0.0, long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div)));
-        TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+        TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
         k *= alpha;
@@ -81,7 +81,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         {
             TI_REAL short_stddev = sqrt(MAX(0.0, short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div)));
             TI_REAL long_stddev = sqrt(MAX(0.0, long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div)));
-            TI_REAL k = short_stddev ? short_stddev / long_stddev : 0;
+            TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
             if (k != k) k = 0;
             k *= alpha;
             val = (input[i]-val) * k + val;
-- 
2.43.0


From 002df68267bf388953a3910e4a0a8f61c4562780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:48 +0000
Subject: [PATCH 39/77] fix: a NaN among the prices made the median filters
 (rmf, hf, hfema, hfsma) erase the end of their multiset

---
 indicators/hf.cc    |  7 ++++---
 indicators/hfema.cc |  5 +++--
 indicators/hfsma.cc |  7 ++++---
 indicators/rmf.cc   |  5 +++--
 utils/nan_last.h    | 15 +++++++++++++++
 5 files changed, 29 insertions(+), 10 deletions(-)
 create mode 100644 utils/nan_last.h

diff --git a/indicators/hf.cc b/indicators/hf.cc
index 624b418..016b0ea 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -10,6 +10,7 @@
 #include <set>
 
 #include "../indicators.h"
+#include "../utils/nan_last.h"
 #include "../utils/log.h"
 #include "../utils/minmax.h"
 #include "../utils/ringbuf.hh"
@@ -30,7 +31,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     std::vector<TI_REAL> a(2*k+1);
 
     int i = 0;
@@ -69,7 +70,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
 
     int i = 0;
     for (; i < 2*k && i < size; ++i) {
@@ -106,7 +107,7 @@ struct ti_hf_stream : ti_stream {
 
     struct {
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::vector<TI_REAL> absbuf;
     } state;
 
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index f76d033..52c1e94 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -10,6 +10,7 @@
 #include <algorithm>
 
 #include "../indicators.h"
+#include "../utils/nan_last.h"
 #include "../utils/ringbuf.hh"
 #include "../utils/log.h"
 
@@ -33,7 +34,7 @@ int ti_hfema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
     TI_REAL ema;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     ringbuf<0> price(2*k+1);
     std::vector<TI_REAL> a(2*k+1);
 
@@ -126,7 +127,7 @@ struct ti_hfema_stream : ti_stream {
     struct {
         TI_REAL ema;
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::vector<TI_REAL> a;
     } state;
 
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 5d7ab61..31ab9f8 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -11,6 +11,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/nan_last.h"
 #include "../utils/ringbuf.hh"
 
 int ti_hfsma_start(TI_REAL const *options) {
@@ -33,7 +34,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
     TI_REAL sum = 0.;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     ringbuf<0> smoothed_price(2*k+1);
     std::vector<TI_REAL> a(2*k+1);
 
@@ -121,7 +122,7 @@ struct ti_hfsma_stream : ti_stream {
 
     struct {
         TI_REAL sum;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         ringbuf<0> price;
         ringbuf<0> smoothed_price;
         std::vector<TI_REAL> a;
@@ -180,7 +181,7 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     TI_REAL threshold = ptr->options.threshold;
 
     TI_REAL sum = ptr->state.sum;
-    std::multiset<TI_REAL> &rankedprice = ptr->state.rankedprice;
+    std::multiset<TI_REAL, nan_last> &rankedprice = ptr->state.rankedprice;
     auto &price = ptr->state.price;
     auto &smoothed_price = ptr->state.smoothed_price;
     auto &a = ptr->state.a;
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 199545a..9b034d0 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -10,6 +10,7 @@
 #include <set>
 
 #include "../indicators.h"
+#include "../utils/nan_last.h"
 #include "../utils/localbuffer.h"
 #include "../utils/log.h"
 
@@ -33,7 +34,7 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if ((int)median_period % 2 != 1) { return TI_INVALID_OPTION; }
 
     TI_REAL rmf_val;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     std::deque<TI_REAL> price;
 
     TI_REAL alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
@@ -75,7 +76,7 @@ struct ti_rmf_stream : ti_stream {
 
     struct {
         TI_REAL rmf_val;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::deque<TI_REAL> price;
     } state;
 
diff --git a/utils/nan_last.h b/utils/nan_last.h
new file mode 100644
index 0000000..9c386ed
--- /dev/null
+++ b/utils/nan_last.h
@@ -0,0 +1,15 @@
+/*
+ * This file is part of tindicators, licensed under GNU LGPL v3.
+ */
+
+#pragma once
+
+#include "../indicators.h"
+
+/* Orders NaN after every number. A plain < is not a strict weak ordering in
+ * the presence of NaN, so a multiset using it cannot find the element again. */
+struct nan_last {
+    bool operator()(TI_REAL a, TI_REAL b) const {
+        return b != b ? a == a : a < b;
+    }
+};
-- 
2.43.0


From 3a3d3462effc0db116dbd99b488bb7eb9695ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 40/77] fix: python binding raised ValueError from ctypes on
 inputs shorter than the warm-up

---
 bindings/python/tindicators/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index c3d2c57..7e1f59f 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -104,7 +104,7 @@ class _Indicator:
 
         insize = len(inputs_lst[0])
         start_amount = self.__start(options)
-        outsize = insize - start_amount
+        outsize = max(0, insize - start_amount)
 
         inputs = (POINTER(c_double * insize) * len(self.info.inputs))()  # double *inputs[]
         for idx in range(len(self.info.inputs)):
@@ -133,7 +133,7 @@ class _Indicator:
 
         if pad:
             for idx in range(len(outputs_lst)):
-                outputs_lst[idx] = self.pad(outputs_lst[idx], start_amount)
+                outputs_lst[idx] = self.pad(outputs_lst[idx], insize - outsize)
 
         result = ret_t(*outputs_lst)
         return result if len(self.info.outputs) > 1 else result[0]
-- 
2.43.0


From 9671a7c22004d927dd10243dae67e934eaf02106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:03 +0000
Subject: [PATCH 41/77] fix: python binding zero-filled inputs shorter than the
 first one

---
 bindings/python/tindicators/impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index 7e1f59f..d2a2c32 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -103,6 +103,8 @@ class _Indicator:
             options[idx] = option
 
         insize = len(inputs_lst[0])
+        if any(len(inp) != insize for inp in inputs_lst):
+            raise ValueError(f'{self.info.name}: inputs differ in length')
         start_amount = self.__start(options)
         outsize = max(0, insize - start_amount)
 
-- 
2.43.0


From 35c846bceb38b275efbfe2f77667c12802e11f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:02 +0000
Subject: [PATCH 42/77] fix: seven stream constructors threw std::bad_alloc
 instead of returning TI_OUT_OF_MEMORY

---
 indicators/ce.cc     | 2 +-
 indicators/copp.cc   | 2 +-
 indicators/kc.cc     | 2 +-
 indicators/pbands.cc | 2 +-
 indicators/posc.cc   | 2 +-
 indicators/rvi.cc    | 2 +-
 indicators/smi.cc    | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index 9e2202c..050eea9 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -181,7 +181,7 @@ int ti_ce_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL coef = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    ti_ce_stream *ptr = new ti_ce_stream();
+    ti_ce_stream *ptr = new(std::nothrow) ti_ce_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8c46749..212ea86 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -146,7 +146,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
 
-    ti_copp_stream *ptr = new ti_copp_stream();
+    ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
 
     *stream = ptr;
diff --git a/indicators/kc.cc b/indicators/kc.cc
index 45f27b3..3cbe357 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -93,7 +93,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
-    ti_kc_stream *ptr = new ti_kc_stream();
+    ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 9571533..74fae50 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -132,7 +132,7 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    ti_pbands_stream *ptr = new ti_pbands_stream();
+    ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/posc.cc b/indicators/posc.cc
index ce6c559..7718f26 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -155,7 +155,7 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_posc_stream *ptr = new ti_posc_stream();
+    ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3e745b5..d8fa70d 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -91,7 +91,7 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_rvi_stream *ptr = new ti_rvi_stream();
+    ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 03e0950..08a4c6d 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -190,7 +190,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
-    ti_smi_stream *ptr = new ti_smi_stream;
+    ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream;
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 79be7a526cb1cafb4f524e8f2ad22253d2170331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:02 +0000
Subject: [PATCH 43/77] fix: stream constructors threw or leaked when a buffer
 could not be allocated

---
 indicators/ahma.cc  |  7 ++++++-
 indicators/arsi.cc  |  7 ++++++-
 indicators/cmi.cc   |  9 +++++++--
 indicators/dwma.cc  |  4 ++--
 indicators/edcf.cc  |  9 +++++++--
 indicators/emsd.cc  |  7 ++++++-
 indicators/er.cc    |  7 ++++++-
 indicators/evwma.cc |  1 +
 indicators/hf.cc    |  9 +++++++--
 indicators/hfema.cc |  2 +-
 indicators/ichi.cc  |  2 +-
 indicators/idwma.cc | 14 ++++++++++++--
 indicators/mhlma.cc |  9 +++++++--
 indicators/pwma.cc  |  1 +
 indicators/rmi.cc   |  1 +
 indicators/shmma.cc |  7 ++++++-
 indicators/swma.cc  |  1 +
 17 files changed, 78 insertions(+), 19 deletions(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index 23ae23a..be34bf3 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -80,7 +80,12 @@ int ti_ahma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.filt.resize(period+1);
+    try {
+        ptr->state.filt.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index 69767c6..4a14bb4 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,12 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(std::max<int>(4, cycpart * 50 + 1));
+    try {
+        ptr->state.Price.resize(std::max<int>(4, cycpart * 50 + 1));
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 8cf54a2..19a6d42 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -154,8 +154,13 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.tr.resize(period);
-    ptr->state.price_close.resize(2);
+    try {
+        ptr->state.tr.resize(period);
+        ptr->state.price_close.resize(2);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index bd645b5..1ba5678 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -130,14 +130,14 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->constants.denom = (1. + period) * period / 2.;
 
-    ptr->state.price.resize(period);
-    
     ptr->state.numer1 = 0;
     ptr->state.sum1 = 0;
 
     try {
+        ptr->state.price.resize(period);
         ptr->state.filt1.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index a269e2a..ef75af6 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -94,8 +94,13 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.length = length;
 
-    ptr->state.coef.resize(2*length);
-    ptr->state.distance2.resize(2*length);
+    try {
+        ptr->state.coef.resize(2*length);
+        ptr->state.distance2.resize(2*length);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index b25ccd5..20c1498 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -143,7 +143,12 @@ int ti_emsd_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.period_reciprocal = 1. / period;
     ptr->constants.ma_period_plus1_reciprocal = 1. / (ma_period + 1.);
diff --git a/indicators/er.cc b/indicators/er.cc
index 4000814..ba48074 100644
--- a/indicators/er.cc
+++ b/indicators/er.cc
@@ -93,7 +93,12 @@ int ti_er_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period+1);
+    try {
+        ptr->state.price.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index d676696..abb83ed 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -119,6 +119,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.volume.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 016b0ea..b3a17d5 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -133,8 +133,13 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.k = k;
     ptr->options.threshold = threshold;
 
-    ptr->state.price.resize(2*k+1);
-    ptr->state.absbuf.resize(2*k+1);
+    try {
+        ptr->state.price.resize(2*k+1);
+        ptr->state.absbuf.resize(2*k+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index 52c1e94..98b3173 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -160,7 +160,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.a.resize(2*k+1);
         ptr->state.price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 09f2504..50ddf7b 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -304,7 +304,7 @@ int ti_ichi_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price_high.resize(period52);
         ptr->state.price_low.resize(period52);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 2416bd9..075ca8d 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -108,10 +108,20 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.exponent = exponent;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.denom = 0;
-    ptr->constants.coefficients.resize(period);
+    try {
+        ptr->constants.coefficients.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = 0; i < period; ++i) {
         ptr->constants.coefficients[i] = 1 / pow(i+1, exponent);
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 5b93da1..972282c 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -199,8 +199,13 @@ int ti_mhlma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.mhl.resize(ma_period);
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.mhl.resize(ma_period);
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/pwma.cc b/indicators/pwma.cc
index e65dded..1f1b333 100644
--- a/indicators/pwma.cc
+++ b/indicators/pwma.cc
@@ -103,6 +103,7 @@ int ti_pwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 33c4671..e4a6c3d 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -120,6 +120,7 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(lookback_period + 1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index cc721de..973e720 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -101,7 +101,12 @@ int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/swma.cc b/indicators/swma.cc
index 2880cbb..d9d0e7a 100644
--- a/indicators/swma.cc
+++ b/indicators/swma.cc
@@ -115,6 +115,7 @@ int ti_swma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
-- 
2.43.0


From 44f52dbe235cb49976b331f4fcaa2555c7415615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:08 +0000
Subject: [PATCH 44/77] fix: indicators on ti_buffer dereferenced a null
 pointer when the buffer could not be allocated

---
 indicators/abands.cc   | 5 +++++
 indicators/adxr.cc     | 1 +
 indicators/cci.cc      | 1 +
 indicators/cvi.cc      | 1 +
 indicators/hma.cc      | 1 +
 indicators/mass.cc     | 1 +
 indicators/mfi.cc      | 5 +++++
 indicators/stoch.cc    | 5 +++++
 indicators/stochrsi.cc | 1 +
 indicators/ultosc.cc   | 5 +++++
 utils/buffer.c         | 1 +
 11 files changed, 27 insertions(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e246740..e0fdedb 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -37,6 +37,11 @@ int ti_abands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *buffer_high = ti_buffer_new(period);
     ti_buffer *buffer_low = ti_buffer_new(period);
+    if (!buffer_high || !buffer_low) {
+        ti_buffer_free(buffer_high);
+        ti_buffer_free(buffer_low);
+        return TI_OUT_OF_MEMORY;
+    }
     TI_REAL close_sum = 0;
 
     for (int i = 0; i < period; ++i) {
diff --git a/indicators/adxr.cc b/indicators/adxr.cc
index cdc0aac..6f47b77 100644
--- a/indicators/adxr.cc
+++ b/indicators/adxr.cc
@@ -58,6 +58,7 @@ int ti_adxr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     ti_buffer *adxr = ti_buffer_new(period-1);
+    if (!adxr) return TI_OUT_OF_MEMORY;
     const int first_adxr = ti_adxr_start(options);
 
     for (i = period; i < size; ++i) {
diff --git a/indicators/cci.cc b/indicators/cci.cc
index c709377..0edf33b 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -35,6 +35,7 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL *output = outputs[0];
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) return TI_OUT_OF_MEMORY;
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 30588dd..4f2eac4 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -29,6 +29,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     ti_buffer *lag = ti_buffer_new(period);
+    if (!lag) return TI_OUT_OF_MEMORY;
 
     TI_REAL val = high[0]-low[0];
     ti_buffer_qpush(lag, val);
diff --git a/indicators/hma.cc b/indicators/hma.cc
index b3c6245..9c91003 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -58,6 +58,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     ti_buffer *buff = ti_buffer_new(periodsqrt);
+    if (!buff) return TI_OUT_OF_MEMORY;
 
     for (i = period-1; i < size; ++i) {
         weight_sum += input[i] * period;
diff --git a/indicators/mass.cc b/indicators/mass.cc
index 4a09e0e..10292d8 100644
--- a/indicators/mass.cc
+++ b/indicators/mass.cc
@@ -37,6 +37,7 @@ int ti_mass(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL ema2 = ema;
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) return TI_OUT_OF_MEMORY;
 
     int i;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 039fbfb..5ab48d1 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -33,6 +33,11 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     ti_buffer *up = ti_buffer_new(period);
     ti_buffer *down = ti_buffer_new(period);
+    if (!up || !down) {
+        ti_buffer_free(up);
+        ti_buffer_free(down);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (i = 1; i < size; ++i) {
         const TI_REAL typ = TYPPRICE(i);
diff --git a/indicators/stoch.cc b/indicators/stoch.cc
index 88cf9f8..4841091 100644
--- a/indicators/stoch.cc
+++ b/indicators/stoch.cc
@@ -43,6 +43,11 @@ int ti_stoch(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     ti_buffer *k_sum = ti_buffer_new(kslow);
     ti_buffer *d_sum = ti_buffer_new(dperiod);
+    if (!k_sum || !d_sum) {
+        ti_buffer_free(k_sum);
+        ti_buffer_free(d_sum);
+        return TI_OUT_OF_MEMORY;
+    }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/stochrsi.cc b/indicators/stochrsi.cc
index 592a1cb..45e6bcc 100644
--- a/indicators/stochrsi.cc
+++ b/indicators/stochrsi.cc
@@ -24,6 +24,7 @@ int ti_stochrsi(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (size <= ti_stochrsi_start(options)) return TI_OKAY;
 
     ti_buffer *rsi = ti_buffer_new(period);
+    if (!rsi) return TI_OUT_OF_MEMORY;
 
     TI_REAL smooth_up = 0, smooth_down = 0;
 
diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index 8589dfe..20543d4 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -34,6 +34,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *bp_buf = ti_buffer_new(long_period);
     ti_buffer *r_buf = ti_buffer_new(long_period);
+    if (!bp_buf || !r_buf) {
+        ti_buffer_free(bp_buf);
+        ti_buffer_free(r_buf);
+        return TI_OUT_OF_MEMORY;
+    }
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
diff --git a/utils/buffer.c b/utils/buffer.c
index eb493aa..8417bcf 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -13,6 +13,7 @@
 ti_buffer *ti_buffer_new(int size) {
     const int s = (int)sizeof(ti_buffer) + (size-1) * (int)sizeof(TI_REAL);
     ti_buffer *ret = (ti_buffer*)malloc((unsigned int)s);
+    if (!ret) return 0;
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
-- 
2.43.0


From fc9cf914ee1500b934fa9111c6ab40b6794c14f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:37 +0000
Subject: [PATCH 45/77] fix: six indicators let std::bad_alloc escape instead
 of returning TI_OUT_OF_MEMORY

---
 indicators/cmi.cc   | 4 +++-
 indicators/edcf.cc  | 4 +++-
 indicators/hf.cc    | 4 +++-
 indicators/idwma.cc | 4 +++-
 indicators/mhlma.cc | 4 +++-
 indicators/rmf.cc   | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 19a6d42..97efd1b 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -18,7 +18,7 @@ int ti_cmi_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -87,6 +87,8 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index ef75af6..38e5e7c 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -19,7 +19,7 @@ int ti_edcf_start(TI_REAL const *options) {
     return 2*length-1;
 }
 
-int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL length = options[0];
     TI_REAL *edcf = outputs[0];
@@ -60,6 +60,8 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_edcf_stream : ti_stream {
diff --git a/indicators/hf.cc b/indicators/hf.cc
index b3a17d5..ee7269e 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -22,7 +22,7 @@ int ti_hf_start(TI_REAL const *options) {
     return 2*k;
 }
 
-int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -59,6 +59,8 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 075ca8d..e05f466 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -19,7 +19,7 @@ int ti_idwma_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const TI_REAL exponent = options[1];
@@ -45,6 +45,8 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 972282c..057cef6 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -19,7 +19,7 @@ int ti_mhlma_start(TI_REAL const *options) {
     return ma_period-1;
 }
 
-int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const int ma_period = options[1];
@@ -124,6 +124,8 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 9b034d0..5785c67 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -23,7 +23,7 @@ int ti_rmf_start(TI_REAL const *options) {
     return median_period-1;
 }
 
-int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
@@ -65,6 +65,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_rmf_stream : ti_stream {
-- 
2.43.0


From 2bf96266a194c5f40eced848be18e9c1b2e820a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:38 +0000
Subject: [PATCH 46/77] fix: streams with node-based containers let
 std::bad_alloc escape

---
 indicators/edcf.cc  | 4 +++-
 indicators/frama.cc | 8 ++++++--
 indicators/hf.cc    | 4 +++-
 indicators/hfema.cc | 4 +++-
 indicators/hfsma.cc | 8 ++++++--
 indicators/rmf.cc   | 8 ++++++--
 indicators/vi.cc    | 8 ++++++--
 7 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 38e5e7c..31bdbf2 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -81,7 +81,7 @@ struct ti_edcf_stream : ti_stream {
     } constants;
 };
 
-int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
     TI_REAL length = options[0];
 
@@ -105,6 +105,8 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_edcf_stream_free(ti_stream *stream) {
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 6c1adf4..5539121 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -136,7 +136,7 @@ struct ti_frama_stream : ti_stream {
     } constants;
 };
 
-int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL period = options[0];
     TI_REAL average_period = options[1];
 
@@ -157,13 +157,15 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.w = log(2.0 / (1.0 + average_period));
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_frama_stream_free(ti_stream *stream) {
     delete static_cast<ti_frama_stream*>(stream);
 }
 
-int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_frama_stream *ptr = static_cast<ti_frama_stream*>(stream);
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
@@ -327,4 +329,6 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.min2_idx = min2_idx;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hf.cc b/indicators/hf.cc
index ee7269e..530e56e 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -150,7 +150,7 @@ void ti_hf_stream_free(ti_stream *stream) {
     delete static_cast<ti_hf_stream*>(stream);
 }
 
-int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hf_stream *ptr = static_cast<ti_hf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hf = outputs[0];
@@ -191,4 +191,6 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index 98b3173..7f1c4d6 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -171,7 +171,7 @@ void ti_hfema_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfema_stream*>(stream);
 }
 
-int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfema_stream *ptr = static_cast<ti_hfema_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hfema = outputs[0];
@@ -217,4 +217,6 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.ema = ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 31ab9f8..a19de7d 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -133,7 +133,7 @@ struct ti_hfsma_stream : ti_stream {
     } constants;
 };
 
-int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) try {
     int sma_period = options[0];
     int k = options[1];
     TI_REAL threshold = options[2];
@@ -165,13 +165,15 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_hfsma_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfsma_stream*>(stream);
 }
 
-int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfsma_stream *ptr = static_cast<ti_hfsma_stream*>(stream);
     const TI_REAL *const series = inputs[0];
     TI_REAL *hfsma = outputs[0];
@@ -223,4 +225,6 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.sum = sum;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 5785c67..e43b57b 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -87,7 +87,7 @@ struct ti_rmf_stream : ti_stream {
     } constants;
 };
 
-int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
 
@@ -108,13 +108,15 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_rmf_stream_free(ti_stream *stream) {
     delete static_cast<ti_rmf_stream*>(stream);
 }
 
-int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_rmf_stream *ptr = static_cast<ti_rmf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *rmf = outputs[0];
@@ -154,4 +156,6 @@ int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.rmf_val = rmf_val;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 1e5a4e5..adfff82 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -124,7 +124,7 @@ struct ti_vi_stream : ti_stream {
     } constants;
 };
 
-int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const TI_REAL period = options[0];
 
     if (period < 1) return TI_INVALID_OPTION;
@@ -139,13 +139,15 @@ int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_vi_stream_free(ti_stream *stream) {
     delete static_cast<ti_vi_stream*>(stream);
 }
 
-int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_vi_stream *ptr = static_cast<ti_vi_stream*>(stream);
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
@@ -220,5 +222,7 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_TR_period = last_TR_period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-- 
2.43.0


From 1066938f5021eee9b9d34eab2e434aef616f66b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:07 +0000
Subject: [PATCH 47/77] fix: edcf stream let std::bad_alloc escape

---
 indicators/edcf.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 31bdbf2..ad8e82b 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -113,7 +113,7 @@ void ti_edcf_stream_free(ti_stream *stream) {
     delete static_cast<ti_edcf_stream*>(stream);
 }
 
-int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_edcf_stream *ptr = static_cast<ti_edcf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
@@ -152,4 +152,6 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
-- 
2.43.0


From 7348942f78bcd3449203b5fe94ae972ed345cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:22 +0000
Subject: [PATCH 48/77] fix: five reference implementations asked malloc for a
 negative size on inputs shorter than their start

---
 indicators/pbands.cc | 2 ++
 indicators/posc.cc   | 2 ++
 indicators/rmi.cc    | 2 ++
 indicators/smi.cc    | 2 ++
 indicators/tsi.cc    | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 74fae50..ca34897 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -80,6 +80,8 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *pbands_upper = outputs[1];
 
     int start = ti_linregslope_start(options);
+    if (size <= start) { return TI_OKAY; }
+
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
     ti_linregslope(size, &close, &period, &b);
diff --git a/indicators/posc.cc b/indicators/posc.cc
index 7718f26..c54fb58 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -99,6 +99,8 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *posc = outputs[0];
 
     int start = ti_linregslope_start(options);
+    if (size <= start) { return TI_OKAY; }
+
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
 
     ti_linregslope(size, &close, &period, &b);
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index e4a6c3d..5effbea 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -61,6 +61,8 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
 
     int start = ti_rmi_start(options);
+    if (size <= start) { return TI_OKAY; }
+
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
 
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 08a4c6d..a89f645 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -123,6 +123,8 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_smi_start(options)) { return TI_OKAY; }
+
     int outsize = size - ti_max_start(&q_period);
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index f07cd9f..9c66bd6 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -66,6 +66,8 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_tsi_start(options)) { return TI_OKAY; }
+
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
-- 
2.43.0


From 5d49b8216bc0a0af51e715a1ef5458ad7935466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 49/77] fix: codegen.py appended to a new indicator the parts
 due to the one before it, or stopped on an undefined name

---
 codegen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.py b/codegen.py
index 39efcd4..4a28a62 100644
--- a/codegen.py
+++ b/codegen.py
@@ -365,6 +365,7 @@ for indicator in indicators.items():
             parts = includes + base + (ref if 'ref' in features else []) + (stream if 'stream' in features else [])
             f.write('\n'.join(parts))
             os.system(f'git add -N {path}')
+        tbd = []
     else:
         if os.path.exists(file_path_c):
             with open(file_path_c) as f:
-- 
2.43.0


From 0405698b52fff5d8651c3d6404398eb97e81f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:15 +0000
Subject: [PATCH 50/77] fix: refuse options that are not numbers or not
 representable as a number of bars

NaN passed the 'period < 1' style checks of some thirty indicators, and so did
infinities and values beyond INT_MAX where the check was made before the
conversion to int; arrays were then indexed with INT_MIN or allocated with it.
---
 indicators/ahma.cc   |  2 +-
 indicators/arsi.cc   |  6 +++---
 indicators/bf2.cc    |  4 ++--
 indicators/bf3.cc    |  4 ++--
 indicators/ce.cc     |  2 +-
 indicators/cmi.cc    |  4 ++--
 indicators/copp.cc   |  6 +++---
 indicators/dwma.cc   |  4 ++--
 indicators/edcf.cc   |  4 ++--
 indicators/emsd.cc   |  4 ++--
 indicators/evwma.cc  |  6 +++---
 indicators/fi.cc     |  4 ++--
 indicators/frama.cc  |  8 ++++----
 indicators/hf.cc     |  6 +++---
 indicators/hfema.cc  |  6 +++---
 indicators/hfsma.cc  |  6 +++---
 indicators/hurst.cc  |  6 +++---
 indicators/idwma.cc  |  8 ++++----
 indicators/kc.cc     |  8 ++++----
 indicators/kst.cc    |  4 ++--
 indicators/lf.cc     |  4 ++--
 indicators/lma.cc    |  4 ++--
 indicators/pbands.cc |  2 +-
 indicators/pc.cc     |  4 ++--
 indicators/pfe.cc    |  6 +++---
 indicators/posc.cc   |  4 ++--
 indicators/psar.cc   |  4 ++--
 indicators/rema.cc   |  8 ++++----
 indicators/rmf.cc    |  8 ++++----
 indicators/rmi.cc    | 12 ++++++------
 indicators/rvi.cc    |  4 ++--
 indicators/shmma.cc  |  4 ++--
 indicators/smi.cc    |  6 +++---
 indicators/t3.cc     | 12 ++++++------
 indicators/tsi.cc    |  6 +++---
 indicators/vi.cc     |  2 +-
 indicators/vidya.cc  |  2 +-
 indicators/vwap.cc   |  6 +++---
 38 files changed, 100 insertions(+), 100 deletions(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index be34bf3..528feec 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -38,7 +38,7 @@ DONTOPTIMIZE int ti_ahma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     const TI_REAL period = options[0];
     TI_REAL *ahma = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     int i = 0;
     for (; i < period && i < size; ++i) {
diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index 4a14bb4..5d40981 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -25,7 +25,7 @@ int ti_arsi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL cycpart = options[0];
     TI_REAL *arsi = outputs[0];
 
-    if (cycpart <= 0) { return TI_INVALID_OPTION; }
+    if (!(cycpart > 0)) { return TI_INVALID_OPTION; }
 
     ringbuf<7> Smooth;
     ringbuf<7> Detrender;
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_arsi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     const TI_REAL cycpart = options[0];
     TI_REAL *arsi = outputs[0];
 
-    if (cycpart <= 0) { return TI_INVALID_OPTION; }
+    if (!(cycpart > 0)) { return TI_INVALID_OPTION; }
 
     ringbuf<7> Smooth;
     ringbuf<7> Detrender;
@@ -164,7 +164,7 @@ struct ti_arsi_stream : ti_stream {
 int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL cycpart = options[0];
 
-    if (cycpart <= 0) { return TI_INVALID_OPTION; }
+    if (!(cycpart > 0)) { return TI_INVALID_OPTION; }
 
     ti_arsi_stream *ptr = new(std::nothrow) ti_arsi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/bf2.cc b/indicators/bf2.cc
index 602b86b..7575231 100644
--- a/indicators/bf2.cc
+++ b/indicators/bf2.cc
@@ -29,7 +29,7 @@ int ti_bf2(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL period = options[0];
     TI_REAL *bf2 = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
     if ((int)period > 40) { return TI_INVALID_OPTION; }
 
@@ -89,7 +89,7 @@ struct ti_bf2_stream : ti_stream {
 int ti_bf2_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL period = options[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
     if ((int)period > 40) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/bf3.cc b/indicators/bf3.cc
index 5aa4918..5202b13 100644
--- a/indicators/bf3.cc
+++ b/indicators/bf3.cc
@@ -31,7 +31,7 @@ int ti_bf3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL period = options[0];
     TI_REAL *bf3 = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
     if ((int)period > 40) { return TI_INVALID_OPTION; }
 
@@ -99,7 +99,7 @@ struct ti_bf3_stream : ti_stream {
 int ti_bf3_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL period = options[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
     if ((int)period > 40) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/ce.cc b/indicators/ce.cc
index 050eea9..cc1937c 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -123,7 +123,7 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *ce_low = outputs[1];
 
     if (size <= ti_ce_start(options)) { return TI_OKAY; }
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     #define MAX(a, b) (a > b ? a : b)
     #define MAX3(a, b, c) (a > b && a > c ? a : b > a && b > c ? b : c)
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 97efd1b..72eacee 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -98,7 +98,7 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const TI_REAL period = options[0];
     TI_REAL *cmi = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
     TI_REAL *tr = new TI_REAL[size];
@@ -145,7 +145,7 @@ struct ti_cmi_stream : ti_stream {
 int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     ti_cmi_stream *ptr = new(std::nothrow) ti_cmi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/copp.cc b/indicators/copp.cc
index 212ea86..c713227 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -27,7 +27,7 @@ int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
-        if (options[i] < 1) { return TI_INVALID_OPTION; }
+        if ((int)options[i] < 1) { return TI_INVALID_OPTION; }
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
     if (size <= ti_copp_start(options)) { return TI_OKAY; }
@@ -81,7 +81,7 @@ int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
-        if (options[i] < 1) { return TI_INVALID_OPTION; }
+        if ((int)options[i] < 1) { return TI_INVALID_OPTION; }
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
     if (size < ti_copp_start(options)) { return TI_OKAY; }
@@ -142,7 +142,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     const int wma_period = options[2];
 
     for (int i = 0; i < 3; ++i) {
-        if (options[i] < 1) { return TI_INVALID_OPTION; }
+        if ((int)options[i] < 1) { return TI_INVALID_OPTION; }
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
 
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 1ba5678..050c919 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -80,7 +80,7 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     const TI_REAL period = options[0];
     TI_REAL *dwma = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_dwma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> smooth1(size-period+1);
@@ -117,7 +117,7 @@ struct ti_dwma_stream : ti_stream {
 int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     ti_dwma_stream *ptr = new(std::nothrow) ti_dwma_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index ad8e82b..63dd525 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -24,7 +24,7 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL length = options[0];
     TI_REAL *edcf = outputs[0];
 
-    if (length < 1) { return TI_INVALID_OPTION; }
+    if ((int)length < 1) { return TI_INVALID_OPTION; }
 
     std::deque<TI_REAL> price;
     std::vector<TI_REAL> coef;
@@ -85,7 +85,7 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
     TI_REAL length = options[0];
 
-    if (length < 1) { return TI_INVALID_OPTION; }
+    if ((int)length < 1) { return TI_INVALID_OPTION; }
 
     ti_edcf_stream *ptr = new(std::nothrow) ti_edcf_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 20c1498..a000b88 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -68,8 +68,8 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     const TI_REAL ma_period = options[1];
     TI_REAL *emsd = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (ma_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if ((int)ma_period < 1) { return TI_INVALID_OPTION; }
 
     TI_REAL sum = 0;
     TI_REAL sum2 = 0;
diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index abb83ed..88a2f28 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -27,7 +27,7 @@ int ti_evwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL *evwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    if (gamma <= 0) { return TI_INVALID_OPTION; }
+    if (!(gamma > 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL filt;
     TI_REAL N = 0;
@@ -60,7 +60,7 @@ DONTOPTIMIZE int ti_evwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
     TI_REAL *evwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    if (gamma <= 0) { return TI_INVALID_OPTION; }
+    if (!(gamma > 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL filt;
 
@@ -104,7 +104,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL gamma = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    if (gamma <= 0) { return TI_INVALID_OPTION; }
+    if (!(gamma > 0)) { return TI_INVALID_OPTION; }
 
     ti_evwma_stream *ptr = new(std::nothrow) ti_evwma_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/fi.cc b/indicators/fi.cc
index fc5ccc7..425eb5f 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -20,7 +20,7 @@ int ti_fi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL const period = options[0];
     TI_REAL *fi = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_fi_start(options)) { return TI_OKAY; }
 
     const TI_REAL per = 2. / (period + 1.);
@@ -61,7 +61,7 @@ struct ti_fi_stream : ti_stream {
 
 int ti_fi_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL const period = options[0];
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     ti_fi_stream *ptr = new(std::nothrow) ti_fi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 5539121..c336956 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -27,8 +27,8 @@ int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL average_period = options[1];
     TI_REAL *frama = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (average_period < 2) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if ((int)average_period < 2) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
     if (size <= ti_frama_start(options)) { return TI_OKAY; }
 
@@ -140,8 +140,8 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL period = options[0];
     TI_REAL average_period = options[1];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (average_period < 2) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if ((int)average_period < 2) { return TI_INVALID_OPTION; }
     if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
 
     ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 530e56e..1a4b61b 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -29,7 +29,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *hf = outputs[0];
 
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     std::multiset<TI_REAL, nan_last> rankedprice;
     std::vector<TI_REAL> a(2*k+1);
@@ -70,7 +70,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *hf = outputs[0];
 
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     std::multiset<TI_REAL, nan_last> rankedprice;
 
@@ -123,7 +123,7 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL threshold = options[1];
 
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     ti_hf_stream *ptr = new(std::nothrow) ti_hf_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index 7f1c4d6..bdec102 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -31,7 +31,7 @@ int ti_hfema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL ema;
     std::multiset<TI_REAL, nan_last> rankedprice;
@@ -86,7 +86,7 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL *ema = new TI_REAL[size];
     ti_ema(size, &series, options, &ema);
@@ -143,7 +143,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     ti_hfema_stream *ptr = new(std::nothrow) ti_hfema_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index a19de7d..7b5fab9 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -31,7 +31,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     if (sma_period < 1) { return TI_INVALID_OPTION; }
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL sum = 0.;
     std::multiset<TI_REAL, nan_last> rankedprice;
@@ -82,7 +82,7 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if (sma_period < 1) { return TI_INVALID_OPTION; }
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL *sma = new TI_REAL[size];
     ti_sma(size, &series, options, &sma);
@@ -140,7 +140,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) try {
 
     if (sma_period < 1) { return TI_INVALID_OPTION; }
     if (k < 1) { return TI_INVALID_OPTION; }
-    if (threshold < 0) { return TI_INVALID_OPTION; }
+    if (!(threshold >= 0)) { return TI_INVALID_OPTION; }
 
     ti_hfsma_stream *ptr = new(std::nothrow) ti_hfsma_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index b31c325..a6fdb45 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -25,7 +25,7 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
-    if (period < 2) { return TI_INVALID_OPTION; }
+    if ((int)period < 2) { return TI_INVALID_OPTION; }
 
     ringbuf<0> r(period);
     TI_REAL sum = 0;
@@ -76,7 +76,7 @@ int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
-    if (period < 2) { return TI_INVALID_OPTION; }
+    if ((int)period < 2) { return TI_INVALID_OPTION; }
 
     #define r(i) log(series[(i)]/series[(i)-1])
 
@@ -136,7 +136,7 @@ struct ti_hurst_stream : ti_stream {
 int ti_hurst_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
 
-    if (period < 2) { return TI_INVALID_OPTION; }
+    if ((int)period < 2) { return TI_INVALID_OPTION; }
 
     ti_hurst_stream *ptr = new(std::nothrow) ti_hurst_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index e05f466..73ffb34 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -26,7 +26,7 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL *idwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    if (exponent < 1) { return TI_INVALID_OPTION; }
+    if (!(exponent >= 1)) { return TI_INVALID_OPTION; }
     if (exponent > 2) { return TI_INVALID_OPTION; }
 
     std::vector<TI_REAL> coefficients(period);
@@ -55,8 +55,8 @@ DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
     const TI_REAL exponent = options[1];
     TI_REAL *idwma = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (exponent < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if (!(exponent >= 1)) { return TI_INVALID_OPTION; }
     if (exponent > 2) { return TI_INVALID_OPTION; }
 
     TI_REAL denom = 0;
@@ -97,7 +97,7 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL exponent = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    if (exponent < 1) { return TI_INVALID_OPTION; }
+    if (!(exponent >= 1)) { return TI_INVALID_OPTION; }
     if (exponent > 2) { return TI_INVALID_OPTION; }
 
     ti_idwma_stream *ptr = new(std::nothrow) ti_idwma_stream();
diff --git a/indicators/kc.cc b/indicators/kc.cc
index 3cbe357..4b31c52 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -33,8 +33,8 @@ int ti_kc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     // moving average - multiple * atr
     // where atr is ema of trueranges
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (multiple < 0) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if (!(multiple >= 0)) { return TI_INVALID_OPTION; }
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
@@ -90,8 +90,8 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL multiple = options[1];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (multiple < 0) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if (!(multiple >= 0)) { return TI_INVALID_OPTION; }
 
     ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/kst.cc b/indicators/kst.cc
index 43e9811..6ca26fd 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -50,7 +50,7 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         return TI_INVALID_OPTION;
     }
     for (int i = 0; i < 8; ++i) {
-        if (options[i] < 1) {
+        if ((int)options[i] < 1) {
             return TI_INVALID_OPTION;
         }
     }
@@ -118,7 +118,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         return TI_INVALID_OPTION;
     }
     for (int i = 0; i < 8; ++i) {
-        if (options[i] < 1) {
+        if ((int)options[i] < 1) {
             return TI_INVALID_OPTION;
         }
     }
diff --git a/indicators/lf.cc b/indicators/lf.cc
index 6049cc7..aa0350a 100644
--- a/indicators/lf.cc
+++ b/indicators/lf.cc
@@ -21,7 +21,7 @@ int ti_lf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL gamma = options[0];
     TI_REAL *lf = outputs[0];
 
-    if (gamma < 0) { return TI_INVALID_OPTION; }
+    if (!(gamma >= 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL L0 = 0.;
     TI_REAL L1 = 0.;
@@ -67,7 +67,7 @@ struct ti_lf_stream : ti_stream {
 int ti_lf_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL gamma = options[0];
 
-    if (gamma < 0) { return TI_INVALID_OPTION; }
+    if (!(gamma >= 0)) { return TI_INVALID_OPTION; }
 
     ti_lf_stream *ptr = new(std::nothrow) ti_lf_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/lma.cc b/indicators/lma.cc
index ca0dafd..b30f3dd 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -58,7 +58,7 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const TI_REAL period = options[0];
     TI_REAL *lma = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_lma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> wma_price(size-period+1);
@@ -99,7 +99,7 @@ struct ti_lma_stream : ti_stream {
 int ti_lma_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     ti_lma_stream *ptr = new(std::nothrow) ti_lma_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index ca34897..ce1c65a 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -132,7 +132,7 @@ struct ti_pbands_stream : ti_stream {
 
 int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/pc.cc b/indicators/pc.cc
index ddb92a3..111b2e7 100644
--- a/indicators/pc.cc
+++ b/indicators/pc.cc
@@ -75,7 +75,7 @@ int ti_pc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL *pc_low = outputs[0];
     TI_REAL *pc_high = outputs[1];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_pc_start(options)) { return TI_OKAY; }
 
     ti_min(size, &low, &period, &pc_low);
@@ -107,7 +107,7 @@ struct ti_pc_stream : ti_stream {
 int ti_pc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     ti_pc_stream *ptr = new(std::nothrow) ti_pc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 2e2b9a7..6a5c3dc 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -83,7 +83,7 @@ int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     const TI_REAL ema_period = options[1];
     TI_REAL *pfe = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_pfe_start(options)) { return TI_OKAY; }
 
     for (int i = period; i < size; ++i) {
@@ -124,8 +124,8 @@ int ti_pfe_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL ema_period = options[1];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (ema_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if ((int)ema_period < 1) { return TI_INVALID_OPTION; }
 
     ti_pfe_stream *ptr = new(std::nothrow) ti_pfe_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/posc.cc b/indicators/posc.cc
index c54fb58..2167ee2 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -154,8 +154,8 @@ struct ti_posc_stream : ti_stream {
 int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL ema_period = options[1];
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (ema_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if ((int)ema_period < 1) { return TI_INVALID_OPTION; }
 
     ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/psar.cc b/indicators/psar.cc
index 5c1fb9c..1552fe9 100644
--- a/indicators/psar.cc
+++ b/indicators/psar.cc
@@ -23,8 +23,8 @@ int ti_psar(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
     TI_REAL *output = outputs[0];
 
-    if (accel_step <= 0) return TI_INVALID_OPTION;
-    if (accel_max <= accel_step) return TI_INVALID_OPTION;
+    if (!(accel_step > 0)) return TI_INVALID_OPTION;
+    if (!(accel_max > accel_step)) return TI_INVALID_OPTION;
     if (size < 2) return TI_OKAY;
 
 
diff --git a/indicators/rema.cc b/indicators/rema.cc
index d0340d4..8a773a5 100644
--- a/indicators/rema.cc
+++ b/indicators/rema.cc
@@ -24,8 +24,8 @@ int ti_rema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL lambda = options[1];
     TI_REAL *rema = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (lambda < 0) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if (!(lambda >= 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL alpha = 2. / (1. + period);
     TI_REAL rema_val;
@@ -72,8 +72,8 @@ int ti_rema_stream_new(TI_REAL const *options, ti_stream **stream) {
     TI_REAL period = options[0];
     TI_REAL lambda = options[1];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (lambda < 0) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if (!(lambda >= 0)) { return TI_INVALID_OPTION; }
 
     ti_rema_stream *ptr = new(std::nothrow) ti_rema_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index e43b57b..d563230 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -29,8 +29,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL median_period = options[1];
     TI_REAL *rmf = outputs[0];
 
-    if (median_period < 1) { return TI_INVALID_OPTION; }
-    if (critical_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)median_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)critical_period < 1) { return TI_INVALID_OPTION; }
     if ((int)median_period % 2 != 1) { return TI_INVALID_OPTION; }
 
     TI_REAL rmf_val;
@@ -91,8 +91,8 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
 
-    if (median_period < 1) { return TI_INVALID_OPTION; }
-    if (critical_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)median_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)critical_period < 1) { return TI_INVALID_OPTION; }
     if ((int)median_period % 2 != 1) { return TI_INVALID_OPTION; }
 
     ti_rmf_stream *ptr = new(std::nothrow) ti_rmf_stream();
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 5effbea..b75876a 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -24,8 +24,8 @@ int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL lookback_period = options[1];
     TI_REAL *rmi = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (lookback_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if ((int)lookback_period < 1) { return TI_INVALID_OPTION; }
     if (size < lookback_period + 1) { return TI_OKAY; }
 
     TI_REAL gains_ema;
@@ -57,8 +57,8 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     const TI_REAL lookback_period = options[1];
     TI_REAL *rmi = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (lookback_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if ((int)lookback_period < 1) { return TI_INVALID_OPTION; }
 
     int start = ti_rmi_start(options);
     if (size <= start) { return TI_OKAY; }
@@ -106,8 +106,8 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL lookback_period = options[1];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (lookback_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if ((int)lookback_period < 1) { return TI_INVALID_OPTION; }
 
     ti_rmi_stream *ptr = new(std::nothrow) ti_rmi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index d8fa70d..3af8214 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -88,8 +88,8 @@ struct ti_rvi_stream : ti_stream {
 int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL ema_period = options[0];
     const TI_REAL stddev_period = options[1];
-    if (ema_period < 1) { return TI_INVALID_OPTION; }
-    if (stddev_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)ema_period < 1) { return TI_INVALID_OPTION; }
+    if ((int)stddev_period < 1) { return TI_INVALID_OPTION; }
 
     ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index 973e720..df3395a 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -51,7 +51,7 @@ DONTOPTIMIZE int ti_shmma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
     const TI_REAL period = options[0];
     TI_REAL *shmma = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     for (int i = period-1; i < size; ++i) {
         TI_REAL T = 0;
@@ -90,7 +90,7 @@ struct ti_shmma_stream : ti_stream {
 int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     ti_shmma_stream *ptr = new(std::nothrow) ti_shmma_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/smi.cc b/indicators/smi.cc
index a89f645..f0d929d 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -26,7 +26,7 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL s_period = options[2];
     TI_REAL *smi = outputs[0];
 
-    for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    for (int i = 0; i < 3; ++i) { if ((int)options[i] < 1) { return TI_INVALID_OPTION; } }
 
     int progress = -q_period + 1;
 
@@ -121,7 +121,7 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     const TI_REAL s_period = options[2];
     TI_REAL *smi = outputs[0];
 
-    for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    for (int i = 0; i < 3; ++i) { if ((int)options[i] < 1) { return TI_INVALID_OPTION; } }
 
     if (size <= ti_smi_start(options)) { return TI_OKAY; }
 
@@ -190,7 +190,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL r_period = options[1];
     const TI_REAL s_period = options[2];
 
-    for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    for (int i = 0; i < 3; ++i) { if ((int)options[i] < 1) { return TI_INVALID_OPTION; } }
 
     ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream;
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/t3.cc b/indicators/t3.cc
index b113b7c..ba9ecaf 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -26,8 +26,8 @@ int ti_t3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     const TI_REAL v = options[1];
     TI_REAL *t3 = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (v < 0) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if (!(v >= 0)) { return TI_INVALID_OPTION; }
 
     TI_REAL ema1_1;
     TI_REAL ema2_1;
@@ -82,8 +82,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     const TI_REAL v = options[1];
     TI_REAL *t3 = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (v < 0) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if (!(v >= 0)) { return TI_INVALID_OPTION; }
     if (size <= ti_t3_start(options)) { return TI_OKAY; }
 
     auto GD = [period, v](const std::vector<TI_REAL> &input) -> std::vector<TI_REAL> {
@@ -145,8 +145,8 @@ int ti_t3_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL v = options[1];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
-    if (v < 0) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
+    if (!(v >= 0)) { return TI_INVALID_OPTION; }
 
     ti_t3_stream *ptr = new(std::nothrow) ti_t3_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index 9c66bd6..e1545f8 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -18,7 +18,7 @@ int ti_tsi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL z_period = options[1];
     TI_REAL *tsi = outputs[0];
 
-    for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    for (int i = 0; i < 2; ++i) { if ((int)options[i] < 1) { return TI_INVALID_OPTION; } }
 
     int progress = -1;
 
@@ -64,7 +64,7 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     const TI_REAL z_period = options[1];
     TI_REAL *tsi = outputs[0];
 
-    for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    for (int i = 0; i < 2; ++i) { if ((int)options[i] < 1) { return TI_INVALID_OPTION; } }
 
     if (size <= ti_tsi_start(options)) { return TI_OKAY; }
 
@@ -111,7 +111,7 @@ struct ti_tsi_stream : ti_stream {
 int ti_tsi_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL y_period = options[0];
     const TI_REAL z_period = options[1];
-    for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
+    for (int i = 0; i < 2; ++i) { if ((int)options[i] < 1) { return TI_INVALID_OPTION; } }
 
     ti_tsi_stream *ptr = new(std::nothrow) ti_tsi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/vi.cc b/indicators/vi.cc
index adfff82..73fe57c 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -127,7 +127,7 @@ struct ti_vi_stream : ti_stream {
 int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const TI_REAL period = options[0];
 
-    if (period < 1) return TI_INVALID_OPTION;
+    if ((int)period < 1) return TI_INVALID_OPTION;
 
     ti_vi_stream *ptr = new(std::nothrow) ti_vi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 0c78508..70dbca2 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -31,7 +31,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (short_period < 1) return TI_INVALID_OPTION;
     if (long_period < short_period) return TI_INVALID_OPTION;
     if (long_period < 2) return TI_INVALID_OPTION;
-    if (alpha < 0.0 || alpha > 1.0) return TI_INVALID_OPTION;
+    if (!(alpha >= 0.0 && alpha <= 1.0)) return TI_INVALID_OPTION;
     if (size <= ti_vidya_start(options)) return TI_OKAY;
 
     TI_REAL short_sum = 0;
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 83fad3d..7961736 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -21,7 +21,7 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL period = options[0];
     TI_REAL *vwap = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     int progress = -period+1;
 
@@ -57,7 +57,7 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     const TI_REAL period = options[0];
     TI_REAL *vwap = outputs[0];
 
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_vwap_start(options)) { return TI_OKAY; }
 
     int outsize = size - ti_typprice_start(&period);
@@ -111,7 +111,7 @@ struct ti_vwap_stream : ti_stream {
 
 int ti_vwap_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
-    if (period < 1) { return TI_INVALID_OPTION; }
+    if ((int)period < 1) { return TI_INVALID_OPTION; }
 
     ti_vwap_stream *ptr = new(std::nothrow) ti_vwap_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
-- 
2.43.0


From 7b5e1a40b2268e635fe304fd1a305410441ac05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:45 +0000
Subject: [PATCH 51/77] fix: arsi refuses a cycle part whose window does not
 fit an int

---
 indicators/arsi.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index 5d40981..2dd8f6e 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -6,6 +6,7 @@
 
 #include <new>
 #include <algorithm>
+#include <limits>
 
 #include "../indicators.h"
 #include "../utils/log.h"
@@ -25,7 +26,7 @@ int ti_arsi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL cycpart = options[0];
     TI_REAL *arsi = outputs[0];
 
-    if (!(cycpart > 0)) { return TI_INVALID_OPTION; }
+    if (!(cycpart > 0 && cycpart < std::numeric_limits<int>::max() / 50)) { return TI_INVALID_OPTION; }
 
     ringbuf<7> Smooth;
     ringbuf<7> Detrender;
@@ -83,7 +84,7 @@ DONTOPTIMIZE int ti_arsi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     const TI_REAL cycpart = options[0];
     TI_REAL *arsi = outputs[0];
 
-    if (!(cycpart > 0)) { return TI_INVALID_OPTION; }
+    if (!(cycpart > 0 && cycpart < std::numeric_limits<int>::max() / 50)) { return TI_INVALID_OPTION; }
 
     ringbuf<7> Smooth;
     ringbuf<7> Detrender;
@@ -164,7 +165,7 @@ struct ti_arsi_stream : ti_stream {
 int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL cycpart = options[0];
 
-    if (!(cycpart > 0)) { return TI_INVALID_OPTION; }
+    if (!(cycpart > 0 && cycpart < std::numeric_limits<int>::max() / 50)) { return TI_INVALID_OPTION; }
 
     ti_arsi_stream *ptr = new(std::nothrow) ti_arsi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
-- 
2.43.0


From eb42a41f36435d06d2e7718d4c34abe72e51db17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:45 +0000
Subject: [PATCH 52/77] fix: sums of window weights overflowed int for long
 periods (wma, hma, trima, copp, pbands, posc, rvi)

---
 indicators/copp.cc   | 2 +-
 indicators/hma.cc    | 4 ++--
 indicators/pbands.cc | 8 ++++----
 indicators/posc.cc   | 8 ++++----
 indicators/rvi.cc    | 8 ++++----
 indicators/trima.cc  | 6 +++---
 indicators/wma.cc    | 2 +-
 7 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index c713227..609e574 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -158,7 +158,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.roc_longer_period = roc_longer_period;
     ptr->options.wma_period = wma_period;
 
-    ptr->constants.denominator = 1. / (wma_period * (wma_period + 1) / 2);
+    ptr->constants.denominator = 1. / (wma_period * (wma_period + 1.) / 2);
 
     ptr->state.flat_rocs_sum = 0.;
     ptr->state.weighted_rocs_sum = 0.;
diff --git a/indicators/hma.cc b/indicators/hma.cc
index 9c91003..b941556 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -32,8 +32,8 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int period2 = period > 1 ? period / 2 : 1;
     const int periodsqrt = (int)(sqrt(period));
 
-    const TI_REAL weights = period * (period+1) / 2;
-    const TI_REAL weights2 = period2 * (period2+1) / 2;
+    const TI_REAL weights = period * (period+1.) / 2;
+    const TI_REAL weights2 = period2 * (period2+1.) / 2;
     const TI_REAL weightssqrt = periodsqrt * (periodsqrt+1) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index ce1c65a..4413073 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -27,8 +27,8 @@ int ti_pbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = period * (period + 1.) / 2.;
+    const TI_REAL xsq_sum = period * (period + 1.) * (2.*period + 1) / 6.;
 
     TI_REAL max;
     TI_REAL min;
@@ -146,8 +146,8 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = period * (period + 1.) / 2.;
+    ptr->constants.xsq_sum = period * (period + 1.) * (2.*period + 1) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
diff --git a/indicators/posc.cc b/indicators/posc.cc
index 2167ee2..65c8656 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -33,8 +33,8 @@ int ti_posc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL xy_sum = 0.;
     TI_REAL ema;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = period * (period + 1.) / 2.;
+    const TI_REAL xsq_sum = period * (period + 1.) * (2.*period + 1) / 6.;
 
     int i = 0;
     for (; i < period-1 && i < size; ++i) {
@@ -170,8 +170,8 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = period * (period + 1.) / 2.;
+    ptr->constants.xsq_sum = period * (period + 1.) * (2.*period + 1) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3af8214..9f02428 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -27,8 +27,8 @@ int ti_rvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = stddev_period * (stddev_period + 1) / 2.;
-    const TI_REAL xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    const TI_REAL x_sum = stddev_period * (stddev_period + 1.) / 2.;
+    const TI_REAL xsq_sum = stddev_period * (stddev_period + 1.) * (2.*stddev_period + 1) / 6.;
 
     TI_REAL gains_ema = 0.;
     TI_REAL losses_ema = 0.;
@@ -106,8 +106,8 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.gains_ema = 0.;
     ptr->state.losses_ema = 0.;
 
-    ptr->constants.x_sum = stddev_period * (stddev_period + 1) / 2.;
-    ptr->constants.xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    ptr->constants.x_sum = stddev_period * (stddev_period + 1.) / 2.;
+    ptr->constants.xsq_sum = stddev_period * (stddev_period + 1.) * (2.*stddev_period + 1) / 6.;
 
     try {
         ptr->state.price.resize(stddev_period+1);
diff --git a/indicators/trima.cc b/indicators/trima.cc
index c21b693..325a517 100644
--- a/indicators/trima.cc
+++ b/indicators/trima.cc
@@ -29,9 +29,9 @@ int ti_trima(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
      * 1 2 3 4 3 2 1 = 16
      */
 
-    TI_REAL weights = 1 / (TI_REAL) ((period%2) ?
-        ((period/2+1) * (period/2+1)):
-        ((period/2+1) * (period/2)));
+    TI_REAL weights = 1 / ((period%2) ?
+        ((period/2+1.) * (period/2+1.)):
+        ((period/2+1.) * (period/2)));
 
     TI_REAL weight_sum = 0; /* Weighted sum of previous numbers, spans one period back. */
     TI_REAL lead_sum = 0; /* Flat sum of most recent numbers. */
diff --git a/indicators/wma.cc b/indicators/wma.cc
index afdd0fb..c6635c1 100644
--- a/indicators/wma.cc
+++ b/indicators/wma.cc
@@ -25,7 +25,7 @@ int ti_wma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
      * 1 2 3 4 5 6
      */
 
-    const TI_REAL weights = period * (period+1) / 2;
+    const TI_REAL weights = period * (period+1.) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
     TI_REAL weight_sum = 0; /* Weighted sum of previous numbers. */
-- 
2.43.0


From 387124cbf74a0d3811e9a562c1ddfe6755c5dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:34 +0000
Subject: [PATCH 53/77] fix: the reference evwma summed fractional volumes as
 integers

---
 indicators/evwma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index 88a2f28..41641c3 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -71,7 +71,7 @@ DONTOPTIMIZE int ti_evwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         *evwma++ = filt;
     }
     for (; i < size; ++i) {
-        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, 0);
+        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, TI_REAL(0));
 
         filt = filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i];
 
-- 
2.43.0


From 9cde63b362e412cd9dea252da5987d979b791366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:40 +0000
Subject: [PATCH 54/77] fix: mesastoch: give the extreme's indices a value
 before the first finite bar

---
 indicators/mesastoch.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index f8bd4a4..1d02058 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -37,8 +37,8 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     TI_REAL highestC = -std::numeric_limits<TI_REAL>::infinity();
     TI_REAL lowestC = std::numeric_limits<TI_REAL>::infinity();
-    int highestC_idx;
-    int lowestC_idx;
+    int highestC_idx = 0;
+    int lowestC_idx = 0;
 
     ringbuf<0> filt(std::max(period, 3));
     ringbuf<3> HP;
-- 
2.43.0


From 010e05a00b3657022696c86b6561bcb7ecc28fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:40 +0000
Subject: [PATCH 55/77] fix: pc: give the extremes' indices a value before the
 first finite bar

---
 indicators/pc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/pc.cc b/indicators/pc.cc
index 111b2e7..11ae116 100644
--- a/indicators/pc.cc
+++ b/indicators/pc.cc
@@ -28,8 +28,8 @@ int ti_pc (int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     TI_REAL max = -std::numeric_limits<TI_REAL>::infinity();
     TI_REAL min = std::numeric_limits<TI_REAL>::infinity();
-    int max_idx;
-    int min_idx;
+    int max_idx = 0;
+    int min_idx = 0;
 
 
     int i = 0;
-- 
2.43.0


From 112ece6a05be40daae54df8170556ad02f0761d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 56/77] fix: tsi_ref: no movement gives 0, as in tsi, not NaN

---
 indicators/tsi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index e1545f8..fdb2fa6 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -83,7 +83,7 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_ema(outsize, &absmomentum, &z_period, &absmomentum);
 
     for (int i = 0; i < outsize; ++i) {
-        *tsi++ = 100. * momentum[i] / absmomentum[i];
+        *tsi++ = 100. * (absmomentum[i] ? momentum[i] / absmomentum[i] : 0);
     }
 
     free(momentum);
-- 
2.43.0


From 3aadc661edc8881e68f569dd6c554deb5d17f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 57/77] fix: smi_ref: an empty range gives 0, as in smi, not
 NaN

---
 indicators/smi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/smi.cc b/indicators/smi.cc
index f0d929d..a8884d9 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -148,7 +148,7 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_ema(outsize, &den, &s_period, &den);
 
     for (int i = 0; i < outsize; ++i) {
-        smi[i] = 100. * num[i] / (0.5 * den[i]);
+        smi[i] = den[i] ? 100. * num[i] / (0.5 * den[i]) : 0;
     }
 
     free(max);
-- 
2.43.0


From 75f9df214773102062c43f65fe31bda34438c1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 58/77] fix: vi_ref: no movement gives 0, as in vi, not NaN

---
 indicators/vi.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 73fe57c..4f5a6f3 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -88,16 +88,16 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
         vm_m_period[period] += vm_m[k];
         TR_period[period] += TR[k];
  
-        vi_p[0] = vm_p_period[period] / TR_period[period];
-        vi_m[0] = vm_m_period[period] / TR_period[period];
+        vi_p[0] = vm_p_period[period] ? vm_p_period[period] / TR_period[period] : 0;
+        vi_m[0] = vm_m_period[period] ? vm_m_period[period] / TR_period[period] : 0;
     }
     for (int i = period + 1; i < size; i++) {
         vm_p_period[i] = vm_p_period[i - 1] - vm_p[i - period] + vm_p[i];
         vm_m_period[i] = vm_m_period[i - 1] - vm_m[i - period] + vm_m[i];
         TR_period[i] = TR_period[i - 1] - TR[i - period] + TR[i];
 
-        vi_p[i - period] = vm_p_period[i] / TR_period[i];
-        vi_m[i - period] = vm_m_period[i] / TR_period[i];
+        vi_p[i - period] = vm_p_period[i] ? vm_p_period[i] / TR_period[i] : 0;
+        vi_m[i - period] = vm_m_period[i] ? vm_m_period[i] / TR_period[i] : 0;
     }
     
     return TI_OKAY;
-- 
2.43.0


From 0bcc5efc779ba5cc15d421add7b086b92f2b3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 59/77] fix: evwma_ref: a window without volume gives 0, as in
 evwma, not NaN

---
 indicators/evwma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index 41641c3..48ee124 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -73,7 +73,7 @@ DONTOPTIMIZE int ti_evwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
     for (; i < size; ++i) {
         const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, TI_REAL(0));
 
-        filt = filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i];
+        filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : 0;
 
         *evwma++ = filt;
     }
-- 
2.43.0


From 33da5c4051fa2e449731eff7cdf91527d4398add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 60/77] fix: posc_ref: an empty range gives 0, as in posc, not
 NaN

---
 indicators/posc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/posc.cc b/indicators/posc.cc
index 65c8656..5268cd0 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -119,7 +119,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             }
         }
 
-        posc[i-start] = (close[i] - the_min) / (the_max - the_min) * 100.;
+        posc[i-start] = (close[i] - the_min) ? (close[i] - the_min) / (the_max - the_min) * 100. : 0;
     }
     ti_ema(size-start, &posc, &ema_period, &posc);
 
-- 
2.43.0


From 37788386d67ed76383dc40b49ad35a39bcd183dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 61/77] fix: mesastoch_ref: an empty range gives 0, as in
 mesastoch, not NaN

---
 indicators/mesastoch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 1d02058..39dedb3 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -160,7 +160,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         highestC = *std::max_element(filt.begin(), filt.begin() + period);
         lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
-        stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
+        stoc[0] = (filt[0] - lowestC) ? (filt[0] - lowestC) / (highestC - lowestC) : 0;
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
 
         *mesastoch++ = result[0];
-- 
2.43.0


From c5534748f72b994d8587a588f16f1392f7bf8acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 62/77] fix: rmi_ref: no gains give 0, as in rmi, not NaN

---
 indicators/rmi.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index b75876a..d2773a0 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -76,7 +76,7 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *inputs_[] = {gains, losses};
     ti_add(size-start, inputs_, 0, &losses);
     for (int i = 0; i < size-start; ++i) {
-        *rmi++ = gains[i] / losses[i] * 100.;
+        *rmi++ = gains[i] ? gains[i] / losses[i] * 100. : 0;
     }
 
     free(gains);
-- 
2.43.0


From 81131015287e3e661a80e2485b36b7ac61097f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:15 +0000
Subject: [PATCH 63/77] fix: hurst_ref: no movement gives 0, as in hurst, not
 NaN

---
 indicators/hurst.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index a6fdb45..ad049ed 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -78,7 +78,7 @@ int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
 
     if ((int)period < 2) { return TI_INVALID_OPTION; }
 
-    #define r(i) log(series[(i)]/series[(i)-1])
+    #define r(i) (series[(i)] && series[(i)-1] ? log(series[(i)]/series[(i)-1]) : 0)
 
     for (int i = period; i < size; ++i) {
         TI_REAL mean = 0;
@@ -106,7 +106,7 @@ int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         TI_REAL R = max_cum_meandev - min_cum_meandev;
         TI_REAL S = stddev;
 
-        TI_REAL H = log(R/S) / log(period);
+        TI_REAL H = R ? log(R/S) / log(period) : 0;
         *hurst++ = H;
         *fractal_dim++ = 2 - H;
     }
-- 
2.43.0


From 3c64456dcc82a4ccb863a6a438aa48f38f26619d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:38 +0000
Subject: [PATCH 64/77] fix: python package: an option of 1e+16 or more is a
 valid argument, not a ValueError from naming the result

---
 bindings/python/tindicators/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/tindicators/impl.py b/bindings/python/tindicators/impl.py
index d2a2c32..51f630d 100644
--- a/bindings/python/tindicators/impl.py
+++ b/bindings/python/tindicators/impl.py
@@ -141,7 +141,7 @@ class _Indicator:
         return result if len(self.info.outputs) > 1 else result[0]
 
     def __construct_elaborated_name(self, name, options_lst):
-        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm') for opt in [''] + options_lst)
+        return name + '_'.join(str(opt).replace('.', 'p').replace('-', 'm').replace('+', '') for opt in [''] + options_lst)
 
     def __parse(self, args, kwargs, offset, names):
         size = len(names)
-- 
2.43.0


From 38d494e1fbc596311333fae8760eac56e61bb615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:43 +0000
Subject: [PATCH 65/77] fix: trunc: values beyond the range of int are
 truncated like any other

---
 indicators/trunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trunc.cc b/indicators/trunc.cc
index f1b166d..9dfcb17 100644
--- a/indicators/trunc.cc
+++ b/indicators/trunc.cc
@@ -9,4 +9,4 @@
 #include "simple1.h"
 
 
-SIMPLE1(ti_trunc_start, ti_trunc, (int)(in1[i]))
+SIMPLE1(ti_trunc_start, ti_trunc, trunc(in1[i]))
-- 
2.43.0


From 2a1d8a8e4f19f39a16bc53252a87697ae5c5dd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:12 +0000
Subject: [PATCH 66/77] fix: arsi: the window is compared as a real, a NaN in
 the series is not converted to int

---
 indicators/arsi.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index 2dd8f6e..4761b2b 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -69,7 +69,7 @@ int ti_arsi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < i; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < i; ++count) {
             CU += std::max<TI_REAL>(0, series[i-count] - series[i-count-1]);
             CD += -std::min<TI_REAL>(0, series[i-count] - series[i-count-1]);
         }
@@ -127,7 +127,7 @@ DONTOPTIMIZE int ti_arsi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < i; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < i; ++count) {
             CU += std::max<TI_REAL>(0, series[i-count] - series[i-count-1]);
             CD += -std::min<TI_REAL>(0, series[i-count] - series[i-count-1]);
         }
@@ -244,7 +244,7 @@ int ti_arsi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < progress + 5; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < progress + 5; ++count) {
             CU += std::max<TI_REAL>(0, Price[count] - Price[count+1]);
             CD += -std::min<TI_REAL>(0, Price[count] - Price[count+1]);
         }
-- 
2.43.0


From d2fe993e0817310d205b5058cd5f213fd75b481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 67/77] fix: vwap of a window without volume is 0 whatever the
 running sums retained

---
 indicators/vwap.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 7961736..cd08058 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -27,11 +27,13 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
     TI_REAL num = 0;
     TI_REAL den = 0;
+    int traded = 0; // bars with volume within the window: the sums are exactly 0 without any
 
     int i = 0;
     for (; i < size && progress < 1; ++i, ++progress) {
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
+        traded += volume[i] != 0;
     }
     if (i > 0 && progress == 1) {
         *vwap++ = den ? num / den : 0;
@@ -40,6 +42,8 @@ int ti_vwap(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         num += (high[i] + low[i] + close[i]) / 3. * volume[i]
             - (high[i-(int)period] + low[i-(int)period] + close[i-(int)period]) / 3. * volume[i-(int)period];
         den += volume[i] - volume[i-(int)period];
+        traded += (volume[i] != 0) - (volume[i-(int)period] != 0);
+        if (!traded) { num = den = 0; }
 
         *vwap++ = den ? num / den : 0;
     }
@@ -66,11 +70,13 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     
     TI_REAL sum = 0;
     TI_REAL vsum = 0;
+    int traded = 0;
 
     int i;
     for (i = 0; i < size && i < period; ++i) {
         sum += typprice[i] * volume[i];
         vsum += volume[i];
+        traded += volume[i] != 0;
     }
 
     *vwap++ = vsum ? sum / vsum : 0;
@@ -80,6 +86,8 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         sum -= typprice[i-(int)period] * volume[i-(int)period];
         vsum += volume[i];
         vsum -= volume[i-(int)period];
+        traded += (volume[i] != 0) - (volume[i-(int)period] != 0);
+        if (!traded) { sum = vsum = 0; }
 
         *vwap++ = vsum ? sum / vsum : 0;
     }
@@ -97,6 +105,7 @@ struct ti_vwap_stream : ti_stream {
     struct {
         TI_REAL num;
         TI_REAL den;
+        int traded; // bars with volume within the window
 
         ringbuf<0> price_high;
         ringbuf<0> price_low;
@@ -124,6 +133,7 @@ int ti_vwap_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->state.num = 0;
     ptr->state.den = 0;
+    ptr->state.traded = 0;
 
     try {
         ptr->state.price_high.resize(period + 1);
@@ -157,6 +167,7 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
     TI_REAL num = ptr->state.num;
     TI_REAL den = ptr->state.den;
+    int traded = ptr->state.traded;
 
     auto &price_high = ptr->state.price_high;
     auto &price_low = ptr->state.price_low;
@@ -172,6 +183,7 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
+        traded += volume[i] != 0;
     }
     for (; i < size; ++i, ++progress, step(price_high, price_low, price_close, price_volume)) {
         price_high = high[i];
@@ -181,17 +193,21 @@ int ti_vwap_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         num += (high[i] + low[i] + close[i]) / 3. * volume[i];
         den += volume[i];
+        traded += volume[i] != 0;
+        if (!traded) { num = den = 0; }
 
         *vwap++ = den ? num / den : 0;
 
         num -= (price_high[period-1] + price_low[period-1] + price_close[period-1]) / 3. * price_volume[period-1];
         den -= price_volume[period-1];
+        traded -= price_volume[period-1] != 0;
     }
 
     ptr->progress = progress;
 
     ptr->state.num = num;
     ptr->state.den = den;
+    ptr->state.traded = traded;
 
     return TI_OKAY;
 }
-- 
2.43.0


From d4cfc1f6eb4b34812ebf55a451bf89240205d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 68/77] fix: vwma of a window without volume is 0 whatever the
 running sums retained

---
 indicators/vwma.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/vwma.cc b/indicators/vwma.cc
index 2ff7aa3..ea3c505 100644
--- a/indicators/vwma.cc
+++ b/indicators/vwma.cc
@@ -26,11 +26,13 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
     TI_REAL sum = 0;
     TI_REAL vsum = 0;
+    int traded = 0; // bars with volume within the window: the sums are exactly 0 without any
 
     int i;
     for (i = 0; i < period; ++i) {
         sum += input[i] * volume[i];
         vsum += volume[i];
+        traded += volume[i] != 0;
     }
 
     *output++ = vsum ? sum / vsum : 0;
@@ -40,6 +42,8 @@ int ti_vwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         sum -= input[i-period] * volume[i-period];
         vsum += volume[i];
         vsum -= volume[i-period];
+        traded += (volume[i] != 0) - (volume[i-period] != 0);
+        if (!traded) { sum = vsum = 0; }
 
         *output++ = vsum ? sum / vsum : 0;
     }
-- 
2.43.0


From 1098cabafcca7a5b750bdc813a4007a015be7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 69/77] fix: evwma resets on a window without volume whatever
 the running sum retained

---
 indicators/evwma.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index 48ee124..79e022a 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -31,19 +31,24 @@ int ti_evwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     TI_REAL filt;
     TI_REAL N = 0;
+    int traded = 0; // bars with volume within the window: N is exactly 0 without any
 
     int i = 0;
     for (; i < period-1 && i < size; ++i) {
         N += volume[i];
+        traded += volume[i] != 0;
     }
     for (; i < period && i < size; ++i) {
         N += volume[i];
+        traded += volume[i] != 0;
         filt = close[i];
 
         *evwma++ = filt;
     }
     for (; i < size; ++i) {
         N += volume[i] - volume[i-period];
+        traded += (volume[i] != 0) - (volume[i-period] != 0);
+        if (!traded) { N = 0; }
         filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : 0;
 
         *evwma++ = filt;
@@ -91,6 +96,7 @@ struct ti_evwma_stream : ti_stream {
     struct {
         TI_REAL filt;
         TI_REAL N;
+        int traded; // bars with volume within the window
         ringbuf<0> volume;
     } state;
 
@@ -140,15 +146,18 @@ int ti_evwma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     const TI_REAL gamma = ptr->options.gamma;
     TI_REAL filt = ptr->state.filt;
     TI_REAL N = ptr->state.N;
+    int traded = ptr->state.traded;
     auto &volume_buf = ptr->state.volume;
 
     int i = 0;
     for (; progress < 0 && i < size; ++i, ++progress, step(volume_buf)) {
         N += volume[i];
+        traded += volume[i] != 0;
         volume_buf = volume[i];
     }
     for (; progress < 1 && i < size; ++i, ++progress, step(volume_buf)) {
         N += volume[i];
+        traded += volume[i] != 0;
         filt = close[i];
         volume_buf = volume[i];
 
@@ -158,6 +167,8 @@ int ti_evwma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         volume_buf = volume[i];
 
         N += volume_buf - volume_buf[period];
+        traded += (volume_buf != 0) - (volume_buf[period] != 0);
+        if (!traded) { N = 0; }
         filt = N ? filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i] : 0;
 
         *evwma++ = filt;
@@ -166,6 +177,7 @@ int ti_evwma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->progress = progress;
     ptr->state.filt = filt;
     ptr->state.N = N;
+    ptr->state.traded = traded;
 
     return TI_OKAY;
 }
-- 
2.43.0


From b551db19088bd74da0ffaa4b5956959d63bca5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 70/77] fix: cmf of a window without volume is 0 whatever the
 running sums retained

---
 indicators/cmf.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/cmf.cc b/indicators/cmf.cc
index e0d28c3..00c6962 100644
--- a/indicators/cmf.cc
+++ b/indicators/cmf.cc
@@ -32,20 +32,25 @@ int ti_cmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     TI_REAL period_volume = 0;
     TI_REAL period_ad_sum = 0;
+    int traded = 0; // bars with volume within the window: the sums are exactly 0 without any
     int i;
     for (i = 0; i < period-1; ++i) {
         period_ad_sum += CHAIKIN_AD(i);
         period_volume += volume[i];
+        traded += volume[i] != 0;
     }
 
     for (i = period-1; i < size; ++i) {
         period_ad_sum += CHAIKIN_AD(i);
         period_volume += volume[i];
+        traded += volume[i] != 0;
+        if (!traded) { period_ad_sum = period_volume = 0; }
 
         *output++ = (period_volume ? period_ad_sum / period_volume : 0);
 
         period_ad_sum -= CHAIKIN_AD(i-period+1);
         period_volume -= volume[i-period+1];
+        traded -= volume[i-period+1] != 0;
     }
 
     #undef CHAIKIN_AD
-- 
2.43.0


From 63330b919c81cd7327c1235ca1ccc56c37131204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 71/77] fix: vosc of windows without volume does not divide
 rounding residue

---
 indicators/vosc.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/indicators/vosc.cc b/indicators/vosc.cc
index 822dc7e..2bc2013 100644
--- a/indicators/vosc.cc
+++ b/indicators/vosc.cc
@@ -29,13 +29,16 @@ int ti_vosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
     TI_REAL short_sum = 0;
     TI_REAL long_sum = 0;
+    int short_traded = 0, long_traded = 0; // bars with volume within each window: a sum is exactly 0 without any
 
     int i;
     for (i = 0; i < long_period; ++i) {
         if (i >= (long_period - short_period)) {
             short_sum += input[i];
+            short_traded += input[i] != 0;
         }
         long_sum += input[i];
+        long_traded += input[i] != 0;
     }
 
     {
@@ -47,9 +50,13 @@ int ti_vosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     for (i = long_period; i < size; ++i) {
         short_sum += input[i];
         short_sum -= input[i-short_period];
+        short_traded += (input[i] != 0) - (input[i-short_period] != 0);
+        if (!short_traded) { short_sum = 0; }
 
         long_sum += input[i];
         long_sum -= input[i-long_period];
+        long_traded += (input[i] != 0) - (input[i-long_period] != 0);
+        if (!long_traded) { long_sum = 0; }
 
         const TI_REAL savg = short_sum * short_div;
         const TI_REAL lavg = long_sum * long_div;
-- 
2.43.0


From 75e1e7fe84d703e663fdcca73304a4d0fd61c10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 72/77] fix: cmo of a flat window is 0 whatever the running
 sums retained

---
 indicators/cmo.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/cmo.cc b/indicators/cmo.cc
index b2642f6..8666f72 100644
--- a/indicators/cmo.cc
+++ b/indicators/cmo.cc
@@ -26,20 +26,25 @@ int ti_cmo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if (size <= ti_cmo_start(options)) return TI_OKAY;
 
     TI_REAL up_sum = 0, down_sum = 0;
+    int moves = 0; // changes within the window: the sums are exactly 0 without any
 
     int i = 1;
     for (; i < period && i < size; ++i) {
         up_sum += UPWARD(i);
         down_sum += DOWNWARD(i);
+        moves += input[i] != input[i-1];
     }
     for (; i < size; ++i) {
         up_sum += UPWARD(i);
         down_sum += DOWNWARD(i);
+        moves += input[i] != input[i-1];
+        if (!moves) { up_sum = down_sum = 0; }
 
         *output++ = up_sum + down_sum ? 100 * (up_sum - down_sum) / (up_sum + down_sum) : 0;
 
         up_sum -= UPWARD(i-period+1);
         down_sum -= DOWNWARD(i-period+1);
+        moves -= input[i-period+1] != input[i-period];
     }
 
     assert(output - outputs[0] == size - ti_cmo_start(options));
-- 
2.43.0


From 7c3350bd0e0cf5e920b8eb2a0faa6205b2abb6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 73/77] fix: kama of a flat window takes efficiency 1 whatever
 the running sum retained

---
 indicators/kama.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/indicators/kama.cc b/indicators/kama.cc
index db23064..5309c60 100644
--- a/indicators/kama.cc
+++ b/indicators/kama.cc
@@ -28,10 +28,12 @@ int ti_kama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL long_per = 2 / (30.0 + 1);
 
     TI_REAL sum = 0;
+    int moves = 0; // changes within the window: the sum is exactly 0 without any
 
     int i;
     for (i = 1; i < period; ++i) {
         sum += fabs(input[i] - input[i-1]);
+        moves += input[i] != input[i-1];
     }
 
     TI_REAL kama = input[period-1];
@@ -40,10 +42,13 @@ int ti_kama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
     for (i = period; i < size; ++i) {
         sum += fabs(input[i] - input[i-1]);
+        moves += input[i] != input[i-1];
 
         if (i > period) {
             sum -= fabs(input[i-period] - input[i-period-1]);
+            moves -= input[i-period] != input[i-period-1];
         }
+        if (!moves) { sum = 0; }
 
         if (sum != 0.0) {
             er = fabs(input[i] - input[i-period]) / sum;
-- 
2.43.0


From 6f716686035292358f7031f98cb938d426ed7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 74/77] fix: buffer sums return to exactly 0 once nothing
 contributes (mfi, ultosc)

---
 utils/buffer.c | 1 +
 utils/buffer.h | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/utils/buffer.c b/utils/buffer.c
index 8417bcf..d3b3b5f 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -18,6 +18,7 @@ ti_buffer *ti_buffer_new(int size) {
     ret->pushes = 0;
     ret->index = 0;
     ret->sum = 0;
+    ret->nonzero = 0;
     return ret;
 }
 
diff --git a/utils/buffer.h b/utils/buffer.h
index 642f5ce..10e6621 100644
--- a/utils/buffer.h
+++ b/utils/buffer.h
@@ -11,6 +11,7 @@
 
 typedef struct {
     int size, pushes, index;
+    int nonzero; /* values contributing to the sum: it is exactly 0 without any */
     TI_REAL sum;
     TI_REAL vals[1];
 } ti_buffer;
@@ -33,9 +34,12 @@ extern void ti_buffer_free(ti_buffer *buffer);
 do { \
     if ((BUFFER)->pushes >= (BUFFER)->size) { \
         (BUFFER)->sum -= (BUFFER)->vals[(BUFFER)->index]; \
+        (BUFFER)->nonzero -= (BUFFER)->vals[(BUFFER)->index] != 0; \
     } \
 \
     (BUFFER)->sum += (VAL); \
+    (BUFFER)->nonzero += (VAL) != 0; \
+    if (!(BUFFER)->nonzero) (BUFFER)->sum = 0; \
     (BUFFER)->vals[(BUFFER)->index] = (VAL); \
     (BUFFER)->pushes += 1; \
     (BUFFER)->index = ((BUFFER)->index + 1); \
-- 
2.43.0


From 5d050e38c3d7daebf9e4223738d46404c08a8454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 75/77] fix: ultosc of windows without buying pressure does not
 divide rounding residue

---
 indicators/ultosc.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index 20543d4..5410bb5 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -42,6 +42,7 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
+    int short_moves = 0, medium_moves = 0; /* bars with any pressure: the sum is exactly 0 without any */
 
     int i;
     for (i = 1; i < size; ++i) {
@@ -55,6 +56,8 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         bp_medium_sum += bp;
         r_short_sum += r;
         r_medium_sum += r;
+        short_moves += bp != 0;
+        medium_moves += bp != 0;
 
         /* The long sum takes care of itself, but we're piggy-backing
          * the medium and short sums off the same buffers. */
@@ -63,15 +66,20 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
             if (short_index < 0) short_index += long_period;
             bp_short_sum -= bp_buf->vals[short_index];
             r_short_sum -= r_buf->vals[short_index];
+            short_moves -= bp_buf->vals[short_index] != 0;
 
             if (i > medium_period) {
                 int medium_index = bp_buf->index - medium_period;
                 if (medium_index < 0) medium_index += long_period;
                 bp_medium_sum -= bp_buf->vals[medium_index];
                 r_medium_sum -= r_buf->vals[medium_index];
+                medium_moves -= bp_buf->vals[medium_index] != 0;
             }
         }
 
+        if (!short_moves) bp_short_sum = 0;
+        if (!medium_moves) bp_medium_sum = 0;
+
         ti_buffer_push(bp_buf, bp);
         ti_buffer_push(r_buf, r);
 
-- 
2.43.0


From b2dfe8ac4f032f2978769754bc882b505b8732e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 76/77] fix: vi of windows without movement does not divide
 rounding residue

---
 indicators/vi.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 4f5a6f3..8d58632 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -32,8 +32,11 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
     TI_REAL last_TR_period = 0;
+    int vm_p_moves = 0, vm_m_moves = 0; // bars contributing to each sum: it is exactly 0 without any
 
     for (int k = 1; k <= int(period); k++) {
+        vm_p_moves += high[k] != low[k - 1];
+        vm_m_moves += low[k] != high[k - 1];
         last_vm_p_period += abs(high[k] - low[k - 1]);
         last_vm_m_period += abs(low[k] - high[k - 1]);
         last_TR_period += fmax(high[k] - low[k], fmax(abs(high[k] - close[k - 1]), abs(low[k] - close[k - 1])));
@@ -44,6 +47,10 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     for (int i = period + 1; i < size; i++) {
         last_vm_p_period = last_vm_p_period - abs(high[i - period] - low[i - period - 1]) + abs(high[i] - low[i - 1]); 
         last_vm_m_period = last_vm_m_period - abs(low[i - period] - high[i - period - 1]) + abs(low[i] - high[i - 1]);
+        vm_p_moves += (high[i] != low[i - 1]) - (high[i - period] != low[i - period - 1]);
+        vm_m_moves += (low[i] != high[i - 1]) - (low[i - period] != high[i - period - 1]);
+        if (!vm_p_moves) { last_vm_p_period = 0; }
+        if (!vm_m_moves) { last_vm_m_period = 0; }
         last_TR_period = last_TR_period 
                          - fmax(high[i - period] - low[i - period], fmax(abs(high[i - period] - close[i - period - 1]), abs(low[i - period] - close[i - period - 1])))
                          + fmax(high[i] - low[i], fmax(abs(high[i] - close[i - 1]), abs(low[i] - close[i - 1])));
@@ -82,10 +89,13 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     vm_p_period[period] = 0;
     vm_m_period[period] = 0;
     TR_period[period]   = 0;
+    int vm_p_moves = 0, vm_m_moves = 0;
 
     for (int k = 1; k <= int(period); k++) {
         vm_p_period[period] += vm_p[k];
         vm_m_period[period] += vm_m[k];
+        vm_p_moves += vm_p[k] != 0;
+        vm_m_moves += vm_m[k] != 0;
         TR_period[period] += TR[k];
  
         vi_p[0] = vm_p_period[period] ? vm_p_period[period] / TR_period[period] : 0;
@@ -94,6 +104,10 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     for (int i = period + 1; i < size; i++) {
         vm_p_period[i] = vm_p_period[i - 1] - vm_p[i - period] + vm_p[i];
         vm_m_period[i] = vm_m_period[i - 1] - vm_m[i - period] + vm_m[i];
+        vm_p_moves += (vm_p[i] != 0) - (vm_p[i - period] != 0);
+        vm_m_moves += (vm_m[i] != 0) - (vm_m[i - period] != 0);
+        if (!vm_p_moves) { vm_p_period[i] = 0; }
+        if (!vm_m_moves) { vm_m_period[i] = 0; }
         TR_period[i] = TR_period[i - 1] - TR[i - period] + TR[i];
 
         vi_p[i - period] = vm_p_period[i] ? vm_p_period[i] / TR_period[i] : 0;
@@ -113,6 +127,8 @@ struct ti_vi_stream : ti_stream {
         TI_REAL last_vm_p_period = 0;
         TI_REAL last_vm_m_period = 0;
         TI_REAL last_TR_period = 0;
+        int vm_p_moves = 0; // bars contributing to each sum
+        int vm_m_moves = 0;
     } state;
 
     std::queue<TI_REAL> high_story;
@@ -160,6 +176,8 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     TI_REAL last_vm_p_period = ptr->state.last_vm_p_period;
     TI_REAL last_vm_m_period = ptr->state.last_vm_m_period;
     TI_REAL last_TR_period = ptr->state.last_TR_period;
+    int vm_p_moves = ptr->state.vm_p_moves;
+    int vm_m_moves = ptr->state.vm_m_moves;
 
     std::queue<TI_REAL> &high_story = ptr->high_story;
     std::queue<TI_REAL> &low_story = ptr->low_story;
@@ -172,6 +190,8 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
             if(high_story.size() > 0) {
                 last_vm_p_period += abs(high[index] - low_story.back());
                 last_vm_m_period += abs(low[index] - high_story.back());
+                vm_p_moves += high[index] != low_story.back();
+                vm_m_moves += low[index] != high_story.back();
                 last_TR_period += fmax(high[index] - low[index], fmax(abs(high[index] - close_story.back()), abs(low[index] - close_story.back()))); 
             }
             
@@ -203,6 +223,10 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         last_vm_m_period = last_vm_m_period
                            - abs(low_story.front() - high_front) 
                            + abs(low[index] - high_story.back());
+        vm_p_moves += (high[index] != low_story.back()) - (high_story.front() != low_front);
+        vm_m_moves += (low[index] != high_story.back()) - (low_story.front() != high_front);
+        if (!vm_p_moves) { last_vm_p_period = 0; }
+        if (!vm_m_moves) { last_vm_m_period = 0; }
         last_TR_period = last_TR_period
                          - fmax(high_story.front() - low_story.front(), fmax(abs(high_story.front() - close_front), abs(low_story.front() - close_front)))
                          + fmax(high[index] - low[index], fmax(abs(high[index] - close_story.back()), abs(low[index] - close_story.back())));
@@ -220,6 +244,8 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_vm_p_period = last_vm_p_period;
     ptr->state.last_vm_m_period = last_vm_m_period;
     ptr->state.last_TR_period = last_TR_period;
+    ptr->state.vm_p_moves = vm_p_moves;
+    ptr->state.vm_m_moves = vm_m_moves;
 
     return TI_OKAY;
 } catch (std::bad_alloc& e) {
-- 
2.43.0


From 33a466a8d14643755ce2d231b7b5daf52c87e359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:22 +0000
Subject: [PATCH 77/77] fix: vidya does not move over a flat short window
 whatever the running sums retained

---
 indicators/vidya.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 70dbca2..e8caebe 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -40,10 +40,13 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum = 0;
     TI_REAL long_sum2 = 0;
 
+    int flat = 0; /* bars up to the current one that share its price: the short window does not deviate when they fill it */
+
     int i;
     for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
+        flat = i > 0 && input[i] == input[i-1] ? flat + 1 : 1;
 
         if (i >= long_period - short_period) {
             short_sum += input[i];
@@ -57,7 +60,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (long_period - 1 < size) {
         TI_REAL short_stddev = sqrt(MAX(0.0, short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div)));
         TI_REAL long_stddev = sqrt(MAX(0.0, long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div)));
-        TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
+        TI_REAL k = flat < short_period && short_stddev && long_stddev ? short_stddev / long_stddev : 0;
         if (k != k) k = 0; /* In some conditions it works out that we take the sqrt(-0.0), which gives NaN.
                               That implies that k should be zero. */
         k *= alpha;
@@ -68,6 +71,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     for (i = long_period; i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
+        flat = input[i] == input[i-1] ? flat + 1 : 1;
 
         short_sum += input[i];
         short_sum2 += input[i] * input[i];
@@ -81,7 +85,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         {
             TI_REAL short_stddev = sqrt(MAX(0.0, short_sum2 * short_div - (short_sum * short_div) * (short_sum * short_div)));
             TI_REAL long_stddev = sqrt(MAX(0.0, long_sum2 * long_div - (long_sum * long_div) * (long_sum * long_div)));
-            TI_REAL k = short_stddev && long_stddev ? short_stddev / long_stddev : 0;
+            TI_REAL k = flat < short_period && short_stddev && long_stddev ? short_stddev / long_stddev : 0;
             if (k != k) k = 0;
             k *= alpha;
             val = (input[i]-val) * k + val;
-- 
2.43.0

