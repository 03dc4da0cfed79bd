// Contracts of the scalar fixed-point primitives (fixedpoint/fixedpoint.h):
// each result is compared with exact arithmetic done in a wider type.
#include "v.h"
#include "spec.h"
#include "fixedpoint/fixedpoint.h"
using namespace gemmlowp;
OB(srdhm32) {
  i32 a = in[0], b = in[1];
  __v_assert(SaturatingRoundingDoublingHighMul(a, b) == spec_srdhm(a, b),
             "SaturatingRoundingDoublingHighMul<int32> is a*b/2^31 rounded to nearest and saturated");
}
OB(srdhm16) {
  i16 a = i16(in[0]), b = i16(in[1]);
  __v_assert(SaturatingRoundingDoublingHighMul(a, b) == spec_srdhm(a, b),
             "SaturatingRoundingDoublingHighMul<int16> is a*b/2^15 rounded to nearest and saturated");
}
OB(rdivpot32) {
  i32 x = in[0], e = in[1];
  __v_assume(e >= 0 && e <= 31);
  __v_cover("pre");
  __v_assert(RoundingDivideByPOT(x, e) == spec_rdivpot(x, e),
             "RoundingDivideByPOT<int32> is x/2^e rounded to nearest, ties away from zero");
}
OB(rdivpot16) {
  i16 x = i16(in[0]);
  i32 e = in[1];
  __v_assume(e >= 0 && e <= 15);
  __v_cover("pre");
  __v_assert(RoundingDivideByPOT<i16>(x, e) == spec_rdivpot(x, e),
             "RoundingDivideByPOT<int16> is x/2^e rounded to nearest, ties away from zero");
}
template <int E, typename T>
static inline void pot_up(T x, int bits) {
  __v_assert(SaturatingRoundingMultiplyByPOT<E>(x) == T(sat(i64(x) * (i64(1) << E), bits)),
             "SaturatingRoundingMultiplyByPOT with positive exponent is x*2^e saturated");
}
template <int E, typename T>
static inline void pot_down(T x) {
  __v_assert(SaturatingRoundingMultiplyByPOT<-E>(x) == T(rdiv_away(x, E)),
             "SaturatingRoundingMultiplyByPOT with negative exponent is x/2^e rounded to nearest");
}
#define EACH31(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) \
  X(19) X(20) X(21) X(22) X(23) X(24) X(25) X(26) X(27) X(28) X(29) X(30)
#define EACH14(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14)
OB(mulpot32_up) {
#define X(e) pot_up<e, i32>(in[0], 32);
  EACH31(X)
#undef X
}
OB(mulpot32_down) {
#define X(e) pot_down<e, i32>(in[0]);
  EACH31(X)
#undef X
}
OB(mulpot16_up) {
#define X(e) pot_up<e, i16>(i16(in[0]), 16);
  EACH14(X)
#undef X
}
OB(mulpot16_down) {
#define X(e) pot_down<e, i16>(i16(in[0]));
  EACH14(X)
#undef X
}
OB(mulpot_zero) {
  __v_assert(SaturatingRoundingMultiplyByPOT<0>(in[0]) == in[0], "SaturatingRoundingMultiplyByPOT<0> is the identity");
  __v_assert(SaturatingRoundingMultiplyByPOT<0>(i16(in[0])) == i16(in[0]),
             "SaturatingRoundingMultiplyByPOT<0> is the identity");
}
OB(halfsum32) {
  i32 a = in[0], b = in[1];
  __v_assert(RoundingHalfSum(a, b) == spec_halfsum(a, b), "RoundingHalfSum<int32> is (a+b)/2 rounded to nearest, as VRHADD");
}
OB(halfsum16) {
  i16 a = i16(in[0]), b = i16(in[1]);
  __v_assert(RoundingHalfSum(a, b) == spec_halfsum(a, b), "RoundingHalfSum<int16> is (a+b)/2 rounded to nearest, as VRHADD");
}
OB(satadd) {
  i16 a = i16(in[0]), b = i16(in[1]);
  __v_assert(SaturatingAdd(a, b) == sat(i64(a) + b, 16), "SaturatingAdd<int16> is a+b saturated");
  i8 c = i8(in[0]), d = i8(in[1]);
  __v_assert(SaturatingAdd(c, d) == sat(i64(c) + d, 8), "SaturatingAdd<int8> is a+b saturated");
  __v_assert(AddSaturatingIf16Bit(a, b) == sat(i64(a) + b, 16), "AddSaturatingIf16Bit<int16> saturates");
  i32 e = in[0], f = in[1];
  __v_assume(i64(e) + f >= INT32_MIN && i64(e) + f <= INT32_MAX);
  __v_cover("pre");
  __v_assert(AddSaturatingIf16Bit(e, f) == i64(e) + f, "AddSaturatingIf16Bit<int32> is a+b");
}
OB(shl32) {
  i32 x = in[0], e = in[1];
  __v_assume(e >= 0 && e <= 30);
  __v_cover("pre");
  i64 w = i64(x) << e;
  __v_assume(w >= INT32_MIN && w <= INT32_MAX);
  __v_assert(ShiftLeft(x, e) == w, "ShiftLeft<int32> is x*2^k whenever that is representable");
}
OB(shl16) {
  i16 x = i16(in[0]);
  i32 e = in[1];
  __v_assume(e >= 0 && e <= 14);
  i64 w = i64(x) << e;
  __v_assume(w >= INT16_MIN && w <= INT16_MAX);
  __v_cover("pre");
  __v_assert(ShiftLeft(x, e) == w, "ShiftLeft<int16> is x*2^k whenever that is representable");
}
OB(shr) {
  i32 x = in[0], e = in[1];
  __v_assume(e >= 0 && e <= 31);
  __v_cover("pre");
  __v_assert(ShiftRight(x, e) == (i64(x) >> e), "ShiftRight<int32> is floor(x/2^k)");
  i16 y = i16(in[0]);
  __v_assume(e <= 15);
  __v_assert(ShiftRight(y, e) == (i64(y) >> e), "ShiftRight<int16> is floor(x/2^k)");
}
template <typename T>
static inline void masks(T a, T b, T m) {
  const T on = T(-1), off = T(0);
  __v_assert(MaskIfNonZero(a) == (a != 0 ? on : off), "MaskIfNonZero");
  __v_assert(MaskIfZero(a) == (a == 0 ? on : off), "MaskIfZero");
  __v_assert(MaskIfEqual(a, b) == (a == b ? on : off), "MaskIfEqual");
  __v_assert(MaskIfNotEqual(a, b) == (a != b ? on : off), "MaskIfNotEqual");
  __v_assert(MaskIfGreaterThan(a, b) == (a > b ? on : off), "MaskIfGreaterThan");
  __v_assert(MaskIfGreaterThanOrEqual(a, b) == (a >= b ? on : off), "MaskIfGreaterThanOrEqual");
  __v_assert(MaskIfLessThan(a, b) == (a < b ? on : off), "MaskIfLessThan");
  __v_assert(MaskIfLessThanOrEqual(a, b) == (a <= b ? on : off), "MaskIfLessThanOrEqual");
  __v_assert(SelectUsingMask(m, a, b) == T((a & m) | (b & ~m)), "SelectUsingMask selects bitwise");
  __v_assert(BitAnd(a, b) == T(a & b) && BitOr(a, b) == T(a | b) && BitXor(a, b) == T(a ^ b) && BitNot(a) == T(~a),
             "bitwise primitives");
  __v_assert(All(MaskIfEqual(a, b)) == (a == b) && Any(MaskIfEqual(a, b)) == (a == b), "All/Any on masks");
  __v_assert(Dup<T>(a) == a, "Dup");
}
OB(masks32) { masks<i32>(in[0], in[1], in[2]); }
OB(masks16) { masks<i16>(i16(in[0]), i16(in[1]), i16(in[2])); }
template <typename T>
static inline void ring(T a, T b) {
  i64 lo = sizeof(T) == 4 ? INT32_MIN : INT16_MIN, hi = sizeof(T) == 4 ? INT32_MAX : INT16_MAX;
  i64 s = i64(a) + b, d = i64(a) - b, p = i64(a) * b, n = -i64(a);
  __v_assert(s < lo || s > hi || Add(a, b) == s, "Add");
  __v_assert(d < lo || d > hi || Sub(a, b) == d, "Sub");
  __v_assert(p < lo || p > hi || Mul(a, b) == p, "Mul");
  __v_assert(n > hi || Neg(a) == n, "Neg");
}
OB(ring32) { ring<i32>(in[0], in[1]); }
OB(ring16) { ring<i16>(i16(in[0]), i16(in[1])); }

// FixedPoint operators are the raw primitives, with the integer-bit bookkeeping.
template <int Src, int Dst>
static inline void rescale(i32 x) {
  FixedPoint<i32, Src> a = FixedPoint<i32, Src>::FromRaw(x);
  i64 spec = Src >= Dst ? sat(i64(x) * (i64(1) << (Src >= Dst ? Src - Dst : 0)), 32)
                        : rdiv_away(x, Src < Dst ? Dst - Src : 0);
  __v_assert(Rescale<Dst>(a).raw() == spec, "Rescale keeps the represented value (rounded, saturated)");
}
OB(fixedpoint_ops) {
  i32 x = in[0], y = in[1];
  FixedPoint<i32, 2> a = FixedPoint<i32, 2>::FromRaw(x);
  FixedPoint<i32, 3> b = FixedPoint<i32, 3>::FromRaw(y);
  FixedPoint<i32, 5> c = a * b;
  __v_assert(c.raw() == SaturatingRoundingDoublingHighMul(x, y), "FixedPoint product adds integer bits");
  __v_assert((ExactMulByPot<1>(a).raw() == x), "ExactMulByPot keeps the raw value");
  rescale<2, 2>(x); rescale<2, 0>(x); rescale<0, 3>(x); rescale<5, 1>(x); rescale<1, 12>(x); rescale<12, 3>(x);
  rescale<0, 26>(x); rescale<26, 0>(x);
  __v_assert((FixedPoint<i32, 0>::One().raw() == INT32_MAX) && (FixedPoint<i32, 3>::One().raw() == (1 << 28)) &&
                 (FixedPoint<i16, 0>::One().raw() == INT16_MAX) && (FixedPoint<i16, 3>::One().raw() == (1 << 12)),
             "One() is the closest representable value to 1");
  __v_assert((FixedPoint<i32, 4>::ConstantPOT<-2>().raw() == (1 << 25)), "ConstantPOT");
  FixedPoint<i32, 2> d = FixedPoint<i32, 2>::FromRaw(y);
  __v_assert((a == d) == (x == y) && (a != d) == (x != y), "FixedPoint equality is raw equality");
  __v_assert(RoundingHalfSum(a, d).raw() == RoundingHalfSum(x, y), "FixedPoint RoundingHalfSum is the raw one");
  __v_assert(SelectUsingMask(MaskIfLessThan(a, d), a, d).raw() == (x < y ? x : y), "FixedPoint select");
}
