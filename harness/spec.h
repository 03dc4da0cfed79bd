// Mathematical specifications shared by the harnesses, written in wide arithmetic.
#ifndef SPEC_H_
#define SPEC_H_
#include <cstdint>
typedef std::int64_t i64;
typedef std::int32_t i32;
typedef std::int16_t i16;
typedef std::int8_t i8;
static inline i64 fdiv2(i64 x, int k) { return x >> k; }
static inline i64 sat(i64 x, int bits) {
  i64 hi = (i64(1) << (bits - 1)) - 1, lo = -hi - 1;
  return x < lo ? lo : x > hi ? hi : x;
}
static inline i64 rdiv_away(i64 x, int k) {  // nearest, ties away from zero
  if (k == 0) return x;
  i64 h = i64(1) << (k - 1);
  return x >= 0 ? (x + h) >> k : -((-x + h) >> k);
}
static inline i64 spec_srdhm(i32 a, i32 b) { return sat((i64(a) * i64(b) + (i64(1) << 30)) >> 31, 32); }
static inline i32 spec_srdhm(i16 a, i16 b) {
  i32 x = (i32(a) * i32(b) + (1 << 14)) >> 15;
  return x > 32767 ? 32767 : x < -32768 ? -32768 : x;
}
// e in [0, 31]
static inline i64 spec_rdivpot(i64 s, int e) {
  i64 h = (i64(1) << e) >> 1;
  return s >= 0 ? (s + h) >> e : -((-s + h) >> e);
}
static inline i64 spec_halfsum(i64 a, i64 b) { return (a + b + 1) >> 1; }
#endif
