// Seeded search for inaccurate results of the fixed-point functions.  usage: acc_search MODE seed seconds
// MODE "C10" searches; MODE "fn:ib:width:raw" evaluates that one input.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include "fixedpoint/fixedpoint.h"
#include "acc_tol.h"
using namespace gemmlowp;
static std::uint64_t rs;
static std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 7; }
struct Fn { const char* nm; int ib, w; std::int32_t (*f)(std::int32_t); };
#define CALL(nm, IB, T, w, call) static std::int32_t nm##_##IB##_##w(std::int32_t r) { auto v = FixedPoint<T, IB>::FromRaw((T)r); return (call).raw(); }
#define BOTH(nm, IB, call) CALL(nm, IB, std::int32_t, 32, call) CALL(nm, IB, std::int16_t, 16, call)
#define ALL(IB) BOTH(xexp, IB, exp_on_negative_values(v)) BOTH(xtanh, IB, gemmlowp::tanh(v)) BOTH(xlogistic, IB, logistic(v))
ALL(0) ALL(1) ALL(2) ALL(3) ALL(4) ALL(5) ALL(6)
BOTH(xexpint, 0, exp_on_interval_between_negative_one_quarter_and_0_excl(v))
BOTH(xomx, 0, one_minus_x_over_one_plus_x_for_x_in_0_1(v))
BOTH(xoox, 0, one_over_one_plus_x_for_x_in_0_1(v))
#define E(nm, IB) {#nm, IB, 32, x##nm##_##IB##_32}, {#nm, IB, 16, x##nm##_##IB##_16},
#define EA(IB) E(exp, IB) E(tanh, IB) E(logistic, IB)
static Fn fns[] = {EA(0) EA(1) EA(2) EA(3) EA(4) EA(5) EA(6) E(expint, 0) E(omx, 0) E(oox, 0)};
static std::int64_t lo(const Fn& f) { std::int64_t m = 1ll << (f.w - 1); std::string s = f.nm; return s == "expint" ? -m / 4 : s == "omx" || s == "oox" ? 0 : -m; }
static std::int64_t hi(const Fn& f) { std::int64_t m = 1ll << (f.w - 1); std::string s = f.nm; return s == "expint" ? -1 : s == "exp" ? 0 : m - 1; }
static void fail(const Fn& f, std::int64_t a, std::int64_t r, const char* what, double want) {
  printf("FAIL %s\nCASE %s on raw %lld (%d integer bits, %d-bit): got %lld, exact value %.3f\n", what, f.nm, (long long)a, f.ib, f.w, (long long)r, want);
  exit(3);
}
static void one(const Fn& f, std::int64_t a) {
  double one = std::pow(2.0, f.w - 1), x = a / std::pow(2.0, f.w - 1 - f.ib);
  std::string s = f.nm;
  double y = s == "exp" || s == "expint" ? std::exp(x) : s == "tanh" ? std::tanh(x) : s == "logistic" ? 1 / (1 + std::exp(-x)) : s == "oox" ? 1 / (1 + x) : (1 - x) / (1 + x);
  std::int64_t r = f.f((std::int32_t)a);
  if (!(std::fabs(r - y * one) <= tolerance(f.nm, f.w, x))) fail(f, a, r, "error larger than documented", y * one);
  std::int64_t mx = (1ll << (f.w - 1)) - 1;
  if (a == 0 && s == "exp" && r != mx) fail(f, a, r, "exp(0) is not One", mx);
  if (a == 0 && s == "tanh" && r != 0) fail(f, a, r, "tanh(0) is not 0", 0);
  if (a == 0 && s == "logistic" && r != (mx + 1) / 2) fail(f, a, r, "logistic(0) is not one half", (mx + 1) / 2);
  if (a > 0 && s == "tanh" && f.f((std::int32_t)-a) != -r) fail(f, a, r, "tanh is not odd", -f.f((std::int32_t)-a));
  if (a > 0 && s == "logistic" && f.f((std::int32_t)-a) != mx - r) fail(f, a, r, "logistic(-x) is not One - logistic(x)", mx - f.f((std::int32_t)-a));
}
int main(int, char** av) {
  rs = strtoull(av[2], 0, 10) * 0x9E3779B97F4A7C15ull + 99; double secs = atof(av[3]);
  for (int i = 0; i < 10; i++) rnd();
  const int nf = sizeof fns / sizeof fns[0];
  char nm[32]; int ib, w; long long raw;
  if (sscanf(av[1], "%31[a-z]:%d:%d:%lld", nm, &ib, &w, &raw) == 4) {
    for (int i = 0; i < nf; i++) if (!strcmp(fns[i].nm, nm) && fns[i].ib == ib && fns[i].w == w) one(fns[i], raw);
    printf("NOFAIL\n");
    return 0;
  }
  long n = 0; time_t t0 = time(0);
  for (int i = 0; i < nf; i++) {
    std::int64_t l = lo(fns[i]), h = hi(fns[i]);
    if (fns[i].w == 16) for (std::int64_t a = l; a <= h; a++, n++) one(fns[i], a);
    else for (int k = 0; k < 32; k++) for (int d = -40; d <= 40; d++) for (int s = -1; s <= 1; s += 2) { std::int64_t a = s * (1ll << k) + d; if (a >= l && a <= h) { one(fns[i], a); n++; } }
  }
  while (time(0) - t0 < secs) for (int k = 0; k < 5000; k++, n++) {
    const Fn& f = fns[rnd() % nf];
    std::int64_t l = lo(f), h = hi(f), a = l + (std::int64_t)(rnd() % (std::uint64_t)(h - l + 1));
    if (k & 1) { a >>= rnd() % 30; if (a < l || a > h) continue; }
    one(f, a);
  }
  printf("NOFAIL %ld\n", n);
  return 0;
}
