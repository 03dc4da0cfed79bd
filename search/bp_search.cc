// Seeded search over BlockParams::Init arguments.  usage: bp_search PROP seed seconds
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <unistd.h>
#include "public/gemmlowp.h"
using namespace gemmlowp;
static std::uint64_t rs;
static std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
static int rnd(int lo, int hi) { return lo + (int)(rnd() % (std::uint64_t)(hi - lo + 1)); }
static int size(int maxbits) { int b = rnd(0, maxbits); int v = (int)(rnd() & ((1ull << b) - 1)) + (1 << b) + rnd(-2, 2); return v < 1 ? 1 : v; }
static char desc[300];
static void fail(const char* w) { printf("FAIL %s\nCASE %s\n", w, desc); fflush(stdout); _exit(3); }
static void onsig(int s) { fail(s == SIGABRT ? "library assertion" : s == SIGALRM ? "Init does not return" : "fault"); }
template <int R, int C, int D> struct KF { static const int kRows = R, kCols = C, kDepth = D; };
template <typename F> void one(int r, int c, int d, int t, int l1, int l2, float f) {
  snprintf(desc, sizeof desc, "rows %d cols %d depth %d threads %d l1 %d l2 %d factor %g (kernel %dx%dx%d)", r, c, d, t, l1, l2, f, F::kRows, F::kCols, F::kDepth);
  BlockParams p;
  alarm(10); p.Init<F>(r, c, d, t, l1, l2, f); alarm(0);
  if (p.l1_rows < 1 || p.l1_cols < 1 || p.l1_depth < 1 || p.l2_rows < 1 || p.l2_cols < 1 || p.l2_depth < 1) fail("a block size is not positive");
  if (p.l1_rows % F::kRows || p.l2_rows % F::kRows || p.l1_cols % F::kCols || p.l2_cols % F::kCols || p.l1_depth % F::kDepth || p.l2_depth % F::kDepth)
    fail("a block size is not a multiple of the register block");
  if (p.l2_depth < d) fail("the L2 block does not cover the depth");
  if (p.l1_rows > p.l2_rows || p.l1_cols > p.l2_cols || p.l1_depth > p.l2_depth) fail("an L1 block is larger than the L2 block");
  if (p.l2_rows - r >= F::kRows || p.l2_cols - c >= F::kCols) fail("an L2 block exceeds the problem by a register block or more");
}
int main(int, char** av) {
  rs = strtoull(av[2], 0, 10) * 0x9E3779B97F4A7C15ull + 77; int secs = atoi(av[3]);
  for (int i = 0; i < 10; i++) rnd();
  signal(SIGABRT, onsig); signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGALRM, onsig);
  time_t t0 = time(0); long n = 0;
  while (time(0) - t0 < secs) for (int k = 0; k < 500; k++, n++) {
    // l2_rows etc. stay small enough for the products formed by Init to fit an int
    int r = size(12), c = size(12), d = size(14), t = rnd(0, 1) ? rnd(1, 8) : size(8), l1 = size(20), l2 = size(24);
    static const float fs[] = {0.75f, 1.0f, 0.5f, 0.9f, 0.01f, 0.0f};
    float f = fs[rnd(0, 5)];
    if (rnd(0, 9) == 0) l1 = rnd(-100, 100);
    if (rnd(0, 9) == 0) l2 = rnd(-100, 100);
    one<DefaultKernel<DefaultL8R8BitDepthParams>::Format>(r, c, d, t, l1, l2, f);
    one<DefaultKernel<L8R8WithLhsNonzeroBitDepthParams>::Format>(r, c, d, t, l1, l2, f);
    one<KF<3, 5, 1> >(r, c, d, t, l1, l2, f);
  }
  printf("NOFAIL %ld cases\n", n);
  return 0;
}
