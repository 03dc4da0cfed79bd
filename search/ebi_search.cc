// Seeded search over histories of EightBitIntGemm calls against a reference.  usage: ebi_search PROP seed seconds
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <vector>
#include <unistd.h>
#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
using namespace gemmlowp::eight_bit_int_gemm;
static std::uint64_t rs;
static std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
static int rnd(int lo, int hi) { return lo + (int)(rnd() % (std::uint64_t)(hi - lo + 1)); }
static char desc[400];
static void fail(const char* w) { printf("FAIL %s\nCASE %s\n", w, desc); fflush(stdout); _exit(3); }
static void onsig(int s) { fail(s == SIGABRT ? "library assertion" : "fault"); }
static std::int32_t rdiv(std::int32_t x, int s) {     // rounding to nearest, ties away from zero (sign taken from x)
  if (!s) return x;
  std::int64_t v = x, h = 1ll << (s - 1);
  return (std::int32_t)(v >= 0 ? (v + h) >> s : -((-v + h) >> s));
}
static int dim() { int t = rnd(0, 9); return t == 0 ? rnd(0, 1) : t < 6 ? rnd(1, 12) : t < 9 ? rnd(1, 40) : rnd(1, 90); }
int main(int, char** av) {
  rs = strtoull(av[2], 0, 10) * 0x9E3779B97F4A7C15ull + 99; int secs = atoi(av[3]);
  for (int i = 0; i < 10; i++) rnd();
  signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGBUS, onsig);
  time_t t0 = time(0); long cases = 0;
  while (time(0) - t0 < secs) {
    int ev = rnd(0, 30);
    if (ev == 0) FreePersistentResources();
    if (ev == 1) SetMaxNumThreads(rnd(0, 4));
    bool ta = rnd(0, 1), tb = rnd(0, 1), tc = rnd(0, 1), fl = rnd(0, 1);
    int m = dim(), n = dim(), k = rnd(0, 3) ? rnd(0, 20) : dim() * rnd(1, 4);
    int lda = (ta ? k : m) + rnd(0, 1) * rnd(1, 9), ldb = (tb ? n : k) + rnd(0, 1) * rnd(1, 9), ldc = (tc ? n : m) + rnd(0, 1) * rnd(1, 9);
    if (!lda) lda = 1; if (!ldb) ldb = 1; if (!ldc) ldc = 1;
    int ao = rnd(-255, 255), bo = rnd(-255, 255), co = rnd(-300, 300), sh = rnd(0, 1) ? rnd(0, 31) : rnd(4, 14), cm = rnd(-3, 40);
    float cf = rnd(0, 3) ? 0.25f * rnd(-9, 9) : 1.f / rnd(1, 99);
    BitDepthSetting bd = rnd(0, 1) ? BitDepthSetting::A8B8 : BitDepthSetting::A5B7;
    snprintf(desc, sizeof desc, "case %ld %s ta=%d tb=%d tc=%d m=%d n=%d k=%d lda=%d ldb=%d ldc=%d a_offset=%d b_offset=%d c_offset=%d c_mult=%d c_shift=%d float_scale=%g depth=%d",
             cases, fl ? "float" : "uint8", ta, tb, tc, m, n, k, lda, ldb, ldc, ao, bo, co, cm, sh, (double)cf, (int)bd);
    const int maj = tc ? m : n, mi = tc ? n : m, G = 40;
    std::vector<std::uint8_t> a((std::size_t)lda * (ta ? m : k) + 1), b((std::size_t)ldb * (tb ? k : n) + 1);
    int d = rnd(0, 3);
    for (auto& x : a) x = d == 0 ? 255 : (std::uint8_t)rnd();
    for (auto& x : b) x = d == 0 ? 255 : d == 1 ? rnd(0, 1) * 255 : (std::uint8_t)rnd();
    std::vector<std::uint8_t> a0 = a, b0 = b;
    std::size_t span = (std::size_t)ldc * maj + 2 * G;
    std::vector<std::uint8_t> c(fl ? 0 : span), c0; std::vector<float> f(fl ? span : 0), f0;
    for (auto& x : c) x = (std::uint8_t)rnd();
    for (auto& x : f) x = 7e9f + rnd(0, 99);
    c0 = c; f0 = f;
    if (fl) EightBitIntGemm(ta, tb, tc, m, n, k, a.data(), ao, lda, b.data(), bo, ldb, f.data() + G, cf, ldc, bd);
    else EightBitIntGemm(ta, tb, tc, m, n, k, a.data(), ao, lda, b.data(), bo, ldb, c.data() + G, co, cm, sh, ldc, bd);
    for (std::size_t p = 0; p < span; p++) {
      long q = (long)p - G; bool in = q >= 0 && q / ldc < maj && q % ldc < mi && k > 0;
      if (!in) { if (fl ? f[p] != f0[p] : c[p] != c0[p]) fail("an element outside a non-empty result changes"); continue; }
      int i = tc ? q / ldc : q % ldc, j = tc ? q % ldc : q / ldc; std::uint32_t s = 0;
      for (int x = 0; x < k; x++) s += (std::uint32_t)(a[ta ? i * lda + x : i + x * lda] + ao) * (std::uint32_t)(b[tb ? x * ldb + j : x + j * ldb] + bo);
      std::int32_t v = (std::int32_t)s;
      if (fl) { if (f[p] != (float)v * cf) fail("float entry differs from accumulator times c_offset"); continue; }
      std::int32_t w = (std::int32_t)((s + (std::uint32_t)co) * (std::uint32_t)cm);
      std::int32_t r = rdiv(w, sh);
      if (c[p] != (r < 0 ? 0 : r > 255 ? 255 : r)) fail("quantized entry differs from the documented value");
    }
    if (a != a0 || b != b0) fail("an operand changes");
    cases++;
  }
  FreePersistentResources();
  printf("NOFAIL cases=%ld seed=%s\n", cases, av[2]);
}
