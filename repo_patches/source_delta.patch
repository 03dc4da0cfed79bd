From ccc266f99729797689af2c811b34c7e4ce560f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:01 +0000
Subject: [PATCH 1/5] fix: saturate SaturatingRoundingDoublingHighMul to
 INT32_MAX on SSE4 and AVX2

---
 fixedpoint/fixedpoint_avx.h | 4 +++-
 fixedpoint/fixedpoint_sse.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index f3fe732..c895cc3 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -348,7 +348,9 @@ inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
                               a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(
+      saturation_mask, _mm256_set1_epi32(std::numeric_limits<std::int32_t>::max()),
+      result);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index fbaa26a..e2c94c9 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -352,7 +352,9 @@ inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
                            a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(
+      saturation_mask, _mm_set1_epi32(std::numeric_limits<std::int32_t>::max()),
+      result);
 }
 
 template <>
-- 
2.43.0


From 980c8b3fbc68b78d6a340c79b8c49fe45289d0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:01 +0000
Subject: [PATCH 2/5] fix: make All() and Any() on SSE4 and AVX2 depend on
 their argument

---
 fixedpoint/fixedpoint_avx.h | 8 ++++----
 fixedpoint/fixedpoint_sse.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index c895cc3..dc10f12 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -257,22 +257,22 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m256i a) {
-  return _mm256_testc_si256(a, a);
+  return _mm256_testc_si256(a, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x16_m256i a) {
-  return _mm256_testc_si256(a.v, a.v);
+  return _mm256_testc_si256(a.v, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool Any(__m256i a) {
-  return BitNot(_mm256_testz_si256(a, a));
+  return !_mm256_testz_si256(a, a);
 }
 
 template <>
 inline bool Any(int16x16_m256i a) {
-  return BitNot(_mm256_testz_si256(a.v, a.v));
+  return !_mm256_testz_si256(a.v, a.v);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index e2c94c9..874fb81 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -260,12 +260,12 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m128i a) {
-  return _mm_testc_si128(a, a);
+  return _mm_testc_si128(a, _mm_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x8_m128i a) {
-  return _mm_testc_si128(a.v, a.v);
+  return _mm_testc_si128(a.v, _mm_set1_epi32(-1));
 }
 
 template <>
-- 
2.43.0


From 9974f1c359f905408a7ccf891c38727e6751b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:01 +0000
Subject: [PATCH 3/5] fix: scalar RoundingHalfSum rounds ties up like VRHADD
 and the SIMD versions

---
 fixedpoint/fixedpoint.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixedpoint/fixedpoint.h b/fixedpoint/fixedpoint.h
index 56e95c0..27b2ace 100644
--- a/fixedpoint/fixedpoint.h
+++ b/fixedpoint/fixedpoint.h
@@ -238,8 +238,7 @@ inline std::int32_t RoundingHalfSum(std::int32_t a, std::int32_t b) {
   std::int64_t a64 = a;
   std::int64_t b64 = b;
   std::int64_t sum = a64 + b64;
-  std::int64_t sign = sum >= 0 ? 1 : -1;
-  return static_cast<std::int32_t>((sum + sign) / 2);
+  return static_cast<std::int32_t>((sum + 1) >> 1);
 }
 
 template <>
@@ -247,8 +246,7 @@ inline std::int16_t RoundingHalfSum(std::int16_t a, std::int16_t b) {
   std::int32_t a32 = a;
   std::int32_t b32 = b;
   std::int32_t sum = a32 + b32;
-  std::int32_t sign = sum >= 0 ? 1 : -1;
-  return static_cast<std::int16_t>((sum + sign) / 2);
+  return static_cast<std::int16_t>((sum + 1) >> 1);
 }
 
 template <typename IntegerType>
-- 
2.43.0


From 1b27b4632d6c8f9c23d4a5b7fd6a6dae0300fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:57 +0000
Subject: [PATCH 4/5] fix: multi-threaded row partition overflowed int when
 rows * threads >= 2^31

rows * (n + 1) was computed in int, so a product with e.g. 2^28 rows and 9
threads got negative block bounds. Compute the product in 64 bits.
---
 internal/multi_thread_gemm.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/multi_thread_gemm.h b/internal/multi_thread_gemm.h
index 97183e7..c7c5c0f 100644
--- a/internal/multi_thread_gemm.h
+++ b/internal/multi_thread_gemm.h
@@ -694,8 +694,10 @@ void MultiThreadGemm(GemmContextType* context, const KernelBase& kernel,
     int next_start_row = 0;
     for (int n = 0; n < task_count; ++n) {
       int start_row = next_start_row;
+      // The product is computed in 64 bits: rows * task_count may overflow int.
       next_start_row = std::min(
-          rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));
+          rows, RoundUp<KernelFormat::kRows>(static_cast<int>(
+                    static_cast<std::int64_t>(rows) * (n + 1) / task_count)));
 
       int block_rows = next_start_row - start_row;
       auto lhs_block = lhs.block(start_row, 0, block_rows, depth);
-- 
2.43.0


From 46aed7be8c85a4eac1f55ec50c9c3def0c99054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:25 +0000
Subject: [PATCH 5/5] fix: float EightBitIntGemm with an empty depth must not
 copy stale scratch memory

With k == 0 the product is skipped, but the conversion loop still copied
whatever the scratch buffer held (a previous call's accumulators or
uninitialised memory) into the result.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index a8d9b43..5b4ea89 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -353,6 +353,12 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   }
 #endif
 
+  // An empty product leaves the result untouched, as in the other entry points;
+  // there would be no accumulators to convert in the scratch memory.
+  if (m == 0 || n == 0 || k == 0) {
+    return;
+  }
+
   // TODO(maciekc): implement a float output stage, get rid of scratch memory.
   Scratch* scratch = GetOrCreateGlobalScratch();
   if (transpose_c) {
-- 
2.43.0

