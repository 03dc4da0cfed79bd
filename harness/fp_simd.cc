// SIMD fixed-point primitives: lane i of the vector operation equals the scalar
// operation on lane i (the scalar contracts are proved in fp_scalar.cc).
#include "v.h"
#include "spec.h"
#include "fixedpoint/fixedpoint.h"
#if defined(GEMMLOWP_NEON)
#include <arm_neon.h>
#endif
using namespace gemmlowp;

#if defined(GEMMLOWP_SSE4) && !defined(GEMMLOWP_AVX2)
typedef __m128i V32;
typedef int16x8_m128i V16;
static inline V32 ld32(const i32* p) { return _mm_loadu_si128((const __m128i*)p); }
static inline void st32(i32* p, V32 v) { _mm_storeu_si128((__m128i*)p, v); }
static inline V16 ld16(const i16* p) { return to_int16x8_m128i(_mm_loadu_si128((const __m128i*)p)); }
static inline void st16(i16* p, V16 v) { _mm_storeu_si128((__m128i*)p, v.v); }
#elif defined(GEMMLOWP_AVX2)
typedef __m256i V32;
typedef int16x16_m256i V16;
static inline V32 ld32(const i32* p) { return _mm256_loadu_si256((const __m256i*)p); }
static inline void st32(i32* p, V32 v) { _mm256_storeu_si256((__m256i*)p, v); }
static inline V16 ld16(const i16* p) { return to_int16x16_m256i(_mm256_loadu_si256((const __m256i*)p)); }
static inline void st16(i16* p, V16 v) { _mm256_storeu_si256((__m256i*)p, v.v); }
#elif defined(GEMMLOWP_NEON)
typedef int32x4_t V32;
typedef int16x8_t V16;
static inline V32 ld32(const i32* p) { return vld1q_s32(p); }
static inline void st32(i32* p, V32 v) { vst1q_s32(p, v); }
static inline V16 ld16(const i16* p) { return vld1q_s16(p); }
static inline void st16(i16* p, V16 v) { vst1q_s16(p, v); }
#else
#error no SIMD in this configuration
#endif

enum { L32 = sizeof(V32) / 4, L16 = sizeof(V16) / 2 };
struct In32 {
  i32 a[L32], b[L32];
  explicit In32(const i32* in) {
    for (int i = 0; i < L32; i++) { a[i] = in[i]; b[i] = in[L32 + i]; }
  }
  V32 A() const { return ld32(a); }
  V32 B() const { return ld32(b); }
};
struct In16 {
  i16 a[L16], b[L16];
  explicit In16(const i32* in) {
    for (int i = 0; i < L16; i++) { a[i] = i16(in[i]); b[i] = i16(in[L16 + i]); }
  }
  V16 A() const { return ld16(a); }
  V16 B() const { return ld16(b); }
};
#ifndef ONLY_TYPES
#define LANES32(expr, spec, what)                       \
  {                                                     \
    i32 o[L32];                                         \
    st32(o, expr);                                      \
    for (int i = 0; i < L32; i++) {                     \
      i32 a = x.a[i], b = x.b[i];                       \
      (void)a; (void)b;                                 \
      __v_assert(o[i] == (spec), what " (int32 lanes)"); \
    }                                                   \
  }
#define LANES16(expr, spec, what)                       \
  {                                                     \
    i16 o[L16];                                         \
    st16(o, expr);                                      \
    for (int i = 0; i < L16; i++) {                     \
      i16 a = x.a[i], b = x.b[i];                       \
      (void)a; (void)b;                                 \
      __v_assert(o[i] == i16(spec), what " (int16 lanes)"); \
    }                                                   \
  }
OB(srdhm32) { In32 x(in); LANES32(SaturatingRoundingDoublingHighMul(x.A(), x.B()), spec_srdhm(a, b), "SaturatingRoundingDoublingHighMul equals the scalar") }
OB(srdhm16) { In16 x(in); LANES16(SaturatingRoundingDoublingHighMul(x.A(), x.B()), spec_srdhm(a, b), "SaturatingRoundingDoublingHighMul equals the scalar") }
OB(rdivpot32) {
  In32 x(in); int e = in[2 * L32];
  __v_assume(e >= 0 && e <= 31);
  __v_cover("pre");
  LANES32(RoundingDivideByPOT(x.A(), e), spec_rdivpot(a, e), "RoundingDivideByPOT equals the scalar")
}
OB(rdivpot16) {
  In16 x(in); int e = in[2 * L16];
  __v_assume(e >= 0 && e <= 15);
  __v_cover("pre");
  LANES16(RoundingDivideByPOT(x.A(), e), spec_rdivpot(a, e), "RoundingDivideByPOT equals the scalar")
}
#if defined(GEMMLOWP_NEON)  // per-lane exponents
OB(rdivpot32v) {
  In32 x(in);
  for (int i = 0; i < L32; i++) __v_assume((x.b[i] >= 0) & (x.b[i] <= 31));
  __v_cover("pre");
  LANES32(RoundingDivideByPOT(x.A(), x.B()), spec_rdivpot(a, b), "RoundingDivideByPOT with per-lane exponents equals the scalar")
}
OB(rdivpot16v) {
  In16 x(in);
  for (int i = 0; i < L16; i++) __v_assume((x.b[i] >= 0) & (x.b[i] <= 15));
  __v_cover("pre");
  LANES16(RoundingDivideByPOT(x.A(), x.B()), spec_rdivpot(a, b), "RoundingDivideByPOT with per-lane exponents equals the scalar")
}
OB(shl32v) {
  In32 x(in);
  for (int i = 0; i < L32; i++) __v_assume((x.b[i] >= 0) & (x.b[i] <= 30));
  __v_cover("pre");
  i32 o[L32];
  st32(o, ShiftLeft(x.A(), x.B()));
  for (int i = 0; i < L32; i++) {
    i64 w = i64(x.a[i]) << x.b[i];
    bool fits = (w >= INT32_MIN) & (w <= INT32_MAX);
    __v_assert(!fits | (o[i] == w), "ShiftLeft with per-lane counts is x*2^k wherever representable (int32 lanes)");
  }
}
#endif
OB(halfsum32) { In32 x(in); LANES32(RoundingHalfSum(x.A(), x.B()), spec_halfsum(a, b), "RoundingHalfSum equals the scalar") }
OB(halfsum16) { In16 x(in); LANES16(RoundingHalfSum(x.A(), x.B()), spec_halfsum(a, b), "RoundingHalfSum equals the scalar") }
OB(satadd16) { In16 x(in); LANES16(SaturatingAdd(x.A(), x.B()), SaturatingAdd(a, b), "SaturatingAdd equals the scalar") }
OB(ring32) {
  In32 x(in);
  LANES32(Add(x.A(), x.B()), i32(std::uint32_t(a) + std::uint32_t(b)), "Add equals the scalar")
  LANES32(Sub(x.A(), x.B()), i32(std::uint32_t(a) - std::uint32_t(b)), "Sub equals the scalar")
  LANES32(Mul(x.A(), x.B()), i32(std::uint32_t(a) * std::uint32_t(b)), "Mul equals the scalar")
  LANES32(Neg(x.A()), i32(-std::uint32_t(a)), "Neg equals the scalar")
}
OB(ring16) {
  In16 x(in);
  LANES16(Add(x.A(), x.B()), i16(a + b), "Add equals the scalar")
  LANES16(Sub(x.A(), x.B()), i16(a - b), "Sub equals the scalar")
  LANES16(Mul(x.A(), x.B()), i16(a * b), "Mul equals the scalar")
  LANES16(Neg(x.A()), i16(-a), "Neg equals the scalar")
}
OB(bits32) {
  In32 x(in); i32 m = in[2 * L32];
  LANES32(BitAnd(x.A(), x.B()), a & b, "BitAnd equals the scalar")
  LANES32(BitOr(x.A(), x.B()), a | b, "BitOr equals the scalar")
  LANES32(BitXor(x.A(), x.B()), a ^ b, "BitXor equals the scalar")
  LANES32(BitNot(x.A()), ~a, "BitNot equals the scalar")
  LANES32(Dup<V32>(m), m, "Dup fills every lane")
  LANES32(SelectUsingMask(MaskIfGreaterThan(x.A(), x.B()), x.A(), x.B()), a > b ? a : b, "SelectUsingMask equals the scalar")
}
OB(bits16) {
  In16 x(in); i16 m = i16(in[2 * L16]);
  LANES16(BitAnd(x.A(), x.B()), a & b, "BitAnd equals the scalar")
  LANES16(BitOr(x.A(), x.B()), a | b, "BitOr equals the scalar")
  LANES16(BitXor(x.A(), x.B()), a ^ b, "BitXor equals the scalar")
  LANES16(BitNot(x.A()), ~a, "BitNot equals the scalar")
  LANES16(Dup<V16>(m), m, "Dup fills every lane")
  LANES16(SelectUsingMask(MaskIfGreaterThan(x.A(), x.B()), x.A(), x.B()), a > b ? a : b, "SelectUsingMask equals the scalar")
}
OB(masks32) {
  In32 x(in);
  LANES32(MaskIfEqual(x.A(), x.B()), a == b ? -1 : 0, "MaskIfEqual equals the scalar")
  LANES32(MaskIfNotEqual(x.A(), x.B()), a != b ? -1 : 0, "MaskIfNotEqual equals the scalar")
  LANES32(MaskIfZero(x.A()), a == 0 ? -1 : 0, "MaskIfZero equals the scalar")
  LANES32(MaskIfNonZero(x.A()), a != 0 ? -1 : 0, "MaskIfNonZero equals the scalar")
  LANES32(MaskIfGreaterThan(x.A(), x.B()), a > b ? -1 : 0, "MaskIfGreaterThan equals the scalar")
  LANES32(MaskIfGreaterThanOrEqual(x.A(), x.B()), a >= b ? -1 : 0, "MaskIfGreaterThanOrEqual equals the scalar")
  LANES32(MaskIfLessThan(x.A(), x.B()), a < b ? -1 : 0, "MaskIfLessThan equals the scalar")
  LANES32(MaskIfLessThanOrEqual(x.A(), x.B()), a <= b ? -1 : 0, "MaskIfLessThanOrEqual equals the scalar")
}
OB(masks16) {
  In16 x(in);
  LANES16(MaskIfEqual(x.A(), x.B()), a == b ? -1 : 0, "MaskIfEqual equals the scalar")
  LANES16(MaskIfNotEqual(x.A(), x.B()), a != b ? -1 : 0, "MaskIfNotEqual equals the scalar")
  LANES16(MaskIfZero(x.A()), a == 0 ? -1 : 0, "MaskIfZero equals the scalar")
  LANES16(MaskIfNonZero(x.A()), a != 0 ? -1 : 0, "MaskIfNonZero equals the scalar")
  LANES16(MaskIfGreaterThan(x.A(), x.B()), a > b ? -1 : 0, "MaskIfGreaterThan equals the scalar")
  LANES16(MaskIfGreaterThanOrEqual(x.A(), x.B()), a >= b ? -1 : 0, "MaskIfGreaterThanOrEqual equals the scalar")
  LANES16(MaskIfLessThan(x.A(), x.B()), a < b ? -1 : 0, "MaskIfLessThan equals the scalar")
  LANES16(MaskIfLessThanOrEqual(x.A(), x.B()), a <= b ? -1 : 0, "MaskIfLessThanOrEqual equals the scalar")
}
OB(allany) {
  In32 x(in);
  bool all = true, any = false;
  for (int i = 0; i < L32; i++) { all = all & (x.a[i] == x.b[i]); any = any | (x.a[i] == x.b[i]); }
  __v_assert(All(MaskIfEqual(x.A(), x.B())) == all, "All: every lane of the mask is set (int32)");
  __v_assert(Any(MaskIfEqual(x.A(), x.B())) == any, "Any: some lane of the mask is set (int32)");
}
OB(allany16) {
  In16 x(in);
  bool all = true, any = false;
  for (int i = 0; i < L16; i++) { all = all & (x.a[i] == x.b[i]); any = any | (x.a[i] == x.b[i]); }
  __v_assert(All(MaskIfEqual(x.A(), x.B())) == all, "All: every lane of the mask is set (int16)");
  __v_assert(Any(MaskIfEqual(x.A(), x.B())) == any, "Any: some lane of the mask is set (int16)");
}
OB(shift32) {
  In32 x(in); int e = in[2 * L32];
  __v_assume(e >= 0 && e <= 31);
  __v_cover("pre");
  LANES32(ShiftRight(x.A(), e), a >> e, "ShiftRight equals the scalar")
}
OB(shift16) {
  In16 x(in); int e = in[2 * L16];
  __v_assume(e >= 0 && e <= 15);
  __v_cover("pre");
  LANES16(ShiftRight(x.A(), e), a >> e, "ShiftRight equals the scalar")
}
// left shifts are specified only where x*2^k is representable; other lanes may overflow
OB(shl32) {
  In32 x(in); int e = in[2 * L32];
  __v_assume(e >= 0 && e <= 30);
  __v_cover("pre");
  i32 o[L32];
  st32(o, ShiftLeft(x.A(), e));
  for (int i = 0; i < L32; i++) {
    i64 w = i64(x.a[i]) << e;
    bool fits = (w >= INT32_MIN) & (w <= INT32_MAX);
    __v_assert(!fits | (o[i] == w), "ShiftLeft is x*2^k wherever representable (int32 lanes)");
  }
}
OB(shl16) {
  In16 x(in); int e = in[2 * L16];
  __v_assume(e >= 0 && e <= 14);
  __v_cover("pre");
  i16 o[L16];
  st16(o, ShiftLeft(x.A(), e));
  for (int i = 0; i < L16; i++) {
    i64 w = i64(x.a[i]) << e;
    bool fits = (w >= INT16_MIN) & (w <= INT16_MAX);
    __v_assert(!fits | (o[i] == w), "ShiftLeft is x*2^k wherever representable (int16 lanes)");
  }
}
#define POT32(e) LANES32(SaturatingRoundingMultiplyByPOT<e>(x.A()), SaturatingRoundingMultiplyByPOT<e>(a), "SaturatingRoundingMultiplyByPOT equals the scalar")
#define POT16(e) LANES16(SaturatingRoundingMultiplyByPOT<e>(x.A()), SaturatingRoundingMultiplyByPOT<e>(a), "SaturatingRoundingMultiplyByPOT equals the scalar")
OB(mulpot32) {
  In32 x(in);
  POT32(0) POT32(1) POT32(2) POT32(3) POT32(5) POT32(7) POT32(13) POT32(20) POT32(29) POT32(30)
  POT32(-1) POT32(-2) POT32(-3) POT32(-4) POT32(-7) POT32(-15) POT32(-16) POT32(-27) POT32(-30) POT32(-31)
}
OB(mulpot16) {
  In16 x(in);
  POT16(0) POT16(1) POT16(2) POT16(3) POT16(5) POT16(7) POT16(13) POT16(14)
  POT16(-1) POT16(-2) POT16(-3) POT16(-4) POT16(-7) POT16(-12) POT16(-14) POT16(-15)
}
#endif
