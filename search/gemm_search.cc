// Seeded search for a failing multiplication, run against the real library.
// usage: gemm_search PROP seed seconds [case]      prints "FAIL ..." for the first failing case, "NOFAIL n" otherwise
// Buffers end (or start) at a page without access, stride gaps and result surroundings carry canaries.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <csetjmp>
#include <ctime>
#include <unistd.h>
#include <sys/mman.h>
#include <vector>
#include "public/gemmlowp.h"
using namespace gemmlowp;
#ifndef PIPE
#define PIPE 0
#endif

static std::uint64_t rs;
static std::uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717ull >> 11; }
static int rnd(int lo, int hi) { return lo + (int)(rnd() % (std::uint64_t)(hi - lo + 1)); }

// ---- arenas: accessible bytes followed (and preceded) by inaccessible pages
struct Arena {
  char* base; std::size_t size;
  explicit Arena(std::size_t n) : size(n) {
    const std::size_t pg = 65536;
    base = (char*)mmap(0, n + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    base += pg;
    mprotect(base, n, PROT_READ | PROT_WRITE);
  }
  // n bytes ending (at_end) exactly at the inaccessible page, or starting exactly after one
  char* get(std::size_t n, bool at_end) { return n > size ? 0 : at_end ? base + size - n : base; }
};
static const std::size_t kA = 4 << 20;
static Arena *aL, *aR, *aD, *aLo, *aRo, *aB, *aM, *aS;

struct Case {
  int rows, cols, depth, lo_, ro_, order[3], ls, rss, ds, threads, l1, l2; float rf; int vec, dist, at_end, pipe_a, pipe_b, pipe_c;
  std::uint64_t dseed; int reuse; int bd;
};
static Case cur; static const char* phase = "";
static const char* propname = "";
static void describe() {
  printf("rows=%d depth=%d cols=%d lhs_order=%d rhs_order=%d res_order=%d lhs_stride=%d rhs_stride=%d res_stride=%d lhs_off=%d rhs_off=%d "
         "vec_offsets=%d threads=%d l1=%d l2=%d rhs_factor=%g dist=%d at_end=%d dseed=%llu pipe=%d a=%d b=%d c=%d bitdepth=%d phase=%s\n",
         cur.rows, cur.depth, cur.cols, cur.order[0], cur.order[1], cur.order[2], cur.ls, cur.rss, cur.ds, cur.lo_, cur.ro_, cur.vec,
         cur.threads, cur.l1, cur.l2, (double)cur.rf, cur.dist, cur.at_end, (unsigned long long)cur.dseed, PIPE, cur.pipe_a, cur.pipe_b,
         cur.pipe_c, cur.bd, phase);
}
static sigjmp_buf jb;
static volatile int in_lib, sig_ok;
static void fail(const char* why) { printf("FAIL %s\nCASE ", why); describe(); fflush(stdout); _exit(3); }
static int crash_is_fail = 1;
static void onsig(int s) { if (!in_lib) { printf("HARNESS signal %d\n", s); fflush(stdout); _exit(9); }
  if (crash_is_fail) fail(s == SIGABRT ? "library assertion" : "access outside the operands or the result (fault)");
  printf("OTHER crash outside this property\n"); fflush(stdout); _exit(7); }

#if PIPE == 0 || PIPE == 5
typedef std::int32_t Out;
#elif PIPE == 4
typedef std::int16_t Out;
#else
typedef std::uint8_t Out;
#endif

// ---- independent reference of the output pipelines (documented semantics)
static std::int32_t w32(std::int64_t x) { return (std::int32_t)(std::uint32_t)x; }
static std::int32_t rdiv(std::int32_t x, int e) {     // to nearest, ties away from zero
  if (e <= 0) return x;
  std::int64_t a = x < 0 ? -(std::int64_t)x : x, q = (a + ((std::int64_t)1 << (e - 1))) >> e;
  return (std::int32_t)(x < 0 ? -q : q);
}
static std::int32_t hm(std::int32_t a, std::int32_t b) {
  if (a == b && a == (std::int32_t)0x80000000) return 0x7fffffff;
  std::int64_t p = (std::int64_t)a * b, n = p >= 0 ? (1ll << 30) : (1 - (1ll << 30));
  return (std::int32_t)((p + n) / (1ll << 31));
}
static std::int32_t clampi(std::int64_t x, std::int64_t lo, std::int64_t hi) { return (std::int32_t)(x < lo ? lo : x > hi ? hi : x); }
static std::vector<std::int32_t> bias, mul, off;
static std::int32_t *pbias, *pmul, *poff;      // the same, placed next to inaccessible pages
static Out ref_pipe(std::int32_t acc, int r, int c) {
#if PIPE == 0
  return acc;
#elif PIPE == 1
  std::int32_t x = rdiv(w32((std::int64_t)w32((std::int64_t)acc + cur.pipe_a) * cur.pipe_b), cur.pipe_c);
  return (Out)clampi(x, 0, 255);
#elif PIPE == 2       // column vector bias, fixed-point quantize down, clamp, saturating cast
  std::int32_t x = w32((std::int64_t)acc + bias[r]);
  x = w32((std::int64_t)rdiv(hm(x, cur.pipe_b), cur.pipe_c) + cur.pipe_a);
  x = clampi(x, 3, 250);
  return (Out)clampi(x, 0, 255);
#elif PIPE == 3       // per-channel scale, row vector (per column)
  std::int32_t x = rdiv(w32((std::int64_t)w32((std::int64_t)acc + off[c]) * mul[c]), cur.pipe_c);
  return (Out)clampi(x, 0, 255);
#elif PIPE == 4       // scale by fixed point and exponent, saturating cast to int16
  int e = cur.pipe_c - 8; int le = e > 0 ? e : 0, re = e > 0 ? 0 : -e;
  std::int32_t x = w32((std::int64_t)acc * ((std::int64_t)1 << le));
  x = w32((std::int64_t)rdiv(hm(x, cur.pipe_b), re) + cur.pipe_a);
  return (Out)clampi(x, -32768, 32767);
#elif PIPE == 5       // row vector bias (per column), int32 out
  return w32((std::int64_t)acc + bias[c]);
#elif PIPE == 6       // per-channel scale, column vector (per row)
  std::int32_t x = rdiv(w32((std::int64_t)w32((std::int64_t)acc + off[r]) * mul[r]), cur.pipe_c);
  return (Out)clampi(x, 0, 255);
#endif
}
static std::int32_t* place(Arena* a, const std::vector<std::int32_t>& v) {
  std::int32_t* p = (std::int32_t*)a->get(v.size() * 4, cur.at_end); memcpy(p, v.data(), v.size() * 4); return p;
}
#if PIPE == 0
typedef std::tuple<> Pipeline;
static Pipeline mk() { return std::make_tuple(); }
#elif PIPE == 1
typedef std::tuple<OutputStageQuantizeDownInt32ToUint8Scale, OutputStageSaturatingCastToUint8> Pipeline;
static Pipeline mk() { OutputStageQuantizeDownInt32ToUint8Scale s; s.result_offset = cur.pipe_a; s.result_mult_int = cur.pipe_b; s.result_shift = cur.pipe_c;
  return std::make_tuple(s, OutputStageSaturatingCastToUint8()); }
#elif PIPE == 2
typedef VectorMap<const std::int32_t, VectorShape::Col> BV;
typedef std::tuple<OutputStageBiasAddition<BV>, OutputStageQuantizeDownInt32ByFixedPoint, OutputStageClamp, OutputStageSaturatingCastToUint8> Pipeline;
static Pipeline mk() { OutputStageBiasAddition<BV> b; b.bias_vector = BV(pbias, cur.rows);
  OutputStageQuantizeDownInt32ByFixedPoint q; q.result_fixedpoint_multiplier = cur.pipe_b; q.result_shift = cur.pipe_c; q.result_offset_after_shift = cur.pipe_a;
  OutputStageClamp cl; cl.min = 3; cl.max = 250; return std::make_tuple(b, q, cl, OutputStageSaturatingCastToUint8()); }
#elif PIPE == 3 || PIPE == 6
#if PIPE == 3
static const VectorShape SH = VectorShape::Row;
#else
static const VectorShape SH = VectorShape::Col;
#endif
typedef std::tuple<OutputStageQuantizeDownInt32ToUint8ScalePC<SH>, OutputStageSaturatingCastToUint8> Pipeline;
static Pipeline mk() { OutputStageQuantizeDownInt32ToUint8ScalePC<SH> s; int n = SH == VectorShape::Row ? cur.cols : cur.rows;
  s.result_offset = VectorMap<const std::int32_t, SH>(poff, n); s.result_mult_int = VectorMap<const std::int32_t, SH>(pmul, n); s.result_shift = cur.pipe_c;
  return std::make_tuple(s, OutputStageSaturatingCastToUint8()); }
#elif PIPE == 4
typedef std::tuple<OutputStageScaleInt32ByFixedPointAndExponent, OutputStageSaturatingCastToInt16> Pipeline;
static Pipeline mk() { OutputStageScaleInt32ByFixedPointAndExponent s; s.result_fixedpoint_multiplier = cur.pipe_b; s.result_exponent = cur.pipe_c - 8;
  s.result_offset_after_shift = cur.pipe_a; return std::make_tuple(s, OutputStageSaturatingCastToInt16()); }
#elif PIPE == 5
typedef VectorMap<const std::int32_t, VectorShape::Row> BV;
typedef std::tuple<OutputStageBiasAddition<BV>> Pipeline;
static Pipeline mk() { OutputStageBiasAddition<BV> b; b.bias_vector = BV(pbias, cur.cols); return std::make_tuple(b); }
#endif

static std::vector<std::uint8_t> L, R; static std::vector<std::int32_t> LO, RO;
static std::uint8_t *pl, *pr; static std::int32_t *plo, *pro; static Out* pd; static std::size_t nd;
static std::size_t span(int order, int rows, int cols, int stride) {   // elements from the first to the last entry
  if (!rows || !cols) return 0;
  return order ? (std::size_t)(rows - 1) * stride + cols : (std::size_t)(cols - 1) * stride + rows;
}
static std::size_t at(int order, int i, int j, int stride) { return order ? (std::size_t)i * stride + j : (std::size_t)j * stride + i; }

typedef VectorMap<const std::int32_t, VectorShape::Col> LV;
typedef VectorMap<const std::int32_t, VectorShape::Row> RV;
#define ORD(x) ((x) ? MapOrder::RowMajor : MapOrder::ColMajor)
#ifdef VECOFF
static const int kVec = 1;
#else
static const int kVec = 0;
#endif
#ifdef S8
typedef SignedL8R8WithLhsNonzeroBitDepthParams BDP;
typedef std::int8_t In;
#elif defined(LNZ)
typedef L8R8WithLhsNonzeroBitDepthParams BDP;
#elif defined(B12)
typedef BitDepthParams<OperandRange<0, 128>, OperandRange<0, 31> > BDP;
#else
typedef DefaultL8R8BitDepthParams BDP;
#endif
#ifndef S8
typedef std::uint8_t In;
#endif
template <int LOr, int ROr, int DOr> static void call(GemmContext* ctx) {
  MatrixMap<const In, ORD(LOr)> l((const In*)pl, cur.rows, cur.depth, cur.ls);
  MatrixMap<const In, ORD(ROr)> r((const In*)pr, cur.depth, cur.cols, cur.rss);
  MatrixMap<Out, ORD(DOr)> d(pd, cur.rows, cur.cols, cur.ds);
  in_lib = 1;
#ifdef VECOFF
  GemmWithOutputPipelinePC<In, Out, BDP>(ctx, l, r, &d, LV(plo, cur.rows), RV(pro, cur.cols), mk());
#else
  GemmWithOutputPipeline<In, Out, BDP>(ctx, l, r, &d, cur.lo_, cur.ro_, mk());
#endif
  in_lib = 0;
}
static void dispatch(GemmContext* ctx) {
#ifdef S8
  return cur.order[2] ? call<1, 0, 1>(ctx) : call<1, 0, 0>(ctx);      // the only operand orders with 8-bit signed packing
#else
  switch (cur.order[0] * 4 + cur.order[1] * 2 + cur.order[2]) {
    case 0: return call<0, 0, 0>(ctx);
    case 1: return call<0, 0, 1>(ctx);
    case 2: return call<0, 1, 0>(ctx);
    case 3: return call<0, 1, 1>(ctx);
    case 4: return call<1, 0, 0>(ctx);
    case 5: return call<1, 0, 1>(ctx);
    case 6: return call<1, 1, 0>(ctx);
    case 7: return call<1, 1, 1>(ctx);
  }
#endif
}
static int dim(int cap) {
  switch (rnd() % 8) {
    case 0: return rnd(1, 4);
    case 1: case 2: return rnd(1, 20);
    case 3: { static const int b[] = {4, 8, 12, 16, 24, 32, 48, 64}; int x = b[rnd() % 8] * rnd(1, 3) + rnd(-1, 1); return x > cap ? cap : x < 1 ? 1 : x; }
    case 4: return rnd(1, cap);
    default: return rnd(1, cap < 40 ? cap : 40);
  }
}
static const char CANARY = (char)0xA7;
static int outside;      // result surroundings modified by the last call
static void run(GemmContext* ctx, int threads, int l1, int l2, float rf) {
  ctx->set_max_num_threads(threads);
  ctx->set_l1_bytes_to_use(l1); ctx->set_l2_bytes_to_use(l2); ctx->set_l2_rhs_factor(rf);
  memset(pd, CANARY, nd * sizeof(Out));
  dispatch(ctx);
}
static int operands_changed() {
  if (L.size() && memcmp(L.data(), pl, L.size())) return 1;
  if (R.size() && memcmp(R.data(), pr, R.size())) return 1;
  return 0;
}
int main(int argc, char** argv) {
  propname = argv[1];
  std::uint64_t seed = strtoull(argv[2], 0, 10); double secs = atof(argv[3]);
  long only = argc > 4 ? atol(argv[4]) : -1;
  const int c01 = !strcmp(propname, "C01"), c02 = !strcmp(propname, "C02"), c03 = !strcmp(propname, "C03"), c04 = !strcmp(propname, "C04"),
            c05 = !strcmp(propname, "C05");
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(s, onsig);
  aL = new Arena(kA); aR = new Arena(kA); aD = new Arena(kA); aLo = new Arena(1 << 16); aRo = new Arena(1 << 16);
  aB = new Arena(1 << 16); aM = new Arena(1 << 16); aS = new Arena(1 << 16);
  GemmContext *shared = new GemmContext;
  time_t t0 = time(0); long n = 0, sized = 0, threaded = 0;
  struct timespec tp; clock_gettime(CLOCK_MONOTONIC, &tp); double start = tp.tv_sec + 1e-9 * tp.tv_nsec;
  for (long k = 0;; k++) {
    clock_gettime(CLOCK_MONOTONIC, &tp);
    if (tp.tv_sec + 1e-9 * tp.tv_nsec - start > secs) break;
    if (only >= 0) { if (k) break; k = only; }
    rs = (seed * 1000003 + k + 1) * 0x9E3779B97F4A7C15ull; if (!rs) rs = 1; for (int i = 0; i < 4; i++) rnd();
    Case& c = cur; memset(&c, 0, sizeof c);
    const int big = c04 || rnd() % 6 == 0;
    c.rows = dim(130); c.cols = dim(130); c.depth = dim(130);
    if (big) {
      int th = rnd(2, 6);
      switch (rnd() % 4) {
        case 0: c.rows = 16 * (th - 1) + rnd(1, 40); break;
        case 1: c.rows = rnd(17, 200); break;
        default: c.rows = 16 * rnd(2, 8) + rnd(-2, 2); break;
      }
      c.cols = rnd() % 3 ? dim(60) : rnd(1, 8);
      if (c.cols > c.rows) c.cols = c.rows;
      long need = 65536L * th / ((long)c.rows * c.cols) + 1;
      c.depth = need > 4000 ? 4000 : (int)need + rnd(0, 40);
      c.threads = rnd() % 8 ? th : rnd() % 2 ? 0 : 9;
      if (rnd() % 4 == 0) { int t = c.rows; c.rows = c.cols; c.cols = t; }
    } else {
      c.threads = rnd() % 4 ? 1 : rnd(2, 5);
      switch (rnd() % 24) { case 0: c.depth = rnd(200, 2500); break; case 1: c.rows = rnd(200, 900); break; case 2: c.cols = rnd(200, 900); break;
        case 3: if (!c05) { int* z[] = {&c.rows, &c.cols, &c.depth}; *z[rnd() % 3] = 0; } break; }
    }
    if (c04 && c.threads == 1) c.threads = 2;
    if (rnd() % 3 == 0 && !c05) { c.l1 = kDefaultL1CacheSize; c.l2 = kDefaultL2CacheSize; c.rf = kDefaultL2RhsFactor; }
    else {
      static const int l1s[] = {1, 64, 300, 700, 1500, 3000, 6000, 16384, 65536}, l2s[] = {1, 100, 500, 1000, 2500, 6000, 12000, 40000, 262144};
      static const float rfs[] = {0.75f, 1.0f, 0.5f, 0.01f, 0.9f, 0.25f, 1.0f};
      c.l1 = rnd() % 2 ? l1s[rnd() % 9] : rnd(1, 8000); c.l2 = rnd() % 2 ? l2s[rnd() % 9] : rnd(1, 30000); c.rf = rfs[rnd() % 7];
      if (rnd() % 5 == 0) { c.l1 = kDefaultL1CacheSize; } if (rnd() % 5 == 0) { c.l2 = kDefaultL2CacheSize; }
    }
    if (c01 && k % 61 == 13) {                                // very deep products, L1 depths a power of two
      static const int rc[][2] = {{12, 4}, {4, 4}, {24, 8}, {12, 8}, {8, 4}, {4, 8}, {4, 2}, {8, 8}};
      const int* p = rc[rnd() % 8]; const int lg = rnd(8, 12);
      c.rows = rnd(1, 9); c.cols = rnd(1, 4); c.depth = 65536 << (rnd() % 3 == 0 ? 0 : 1); if (rnd() % 4 == 0) c.depth += rnd(1, 700);
      c.threads = 1; c.l1 = 4 * p[0] * p[1] + ((p[0] + p[1]) << lg); c.l2 = kDefaultL2CacheSize; c.rf = kDefaultL2RhsFactor;
    }
    for (int i = 0; i < 3; i++) c.order[i] = rnd() % 2;
#ifdef S8
    c.order[0] = 1; c.order[1] = 0;
#endif
    int pad = rnd() % 2 ? 0 : rnd(1, 20);
    c.ls = (c.order[0] ? c.depth : c.rows) + pad; c.rss = (c.order[1] ? c.cols : c.depth) + (rnd() % 2 ? pad : 0);
    c.ds = (c.order[2] ? c.cols : c.rows) + (rnd() % 2 ? 0 : rnd(1, 17));
    c.at_end = rnd() % 2; c.dist = rnd() % 8; c.dseed = rnd(); c.vec = kVec;
    static const int offs[] = {0, 0, -128, -255, -1, 1, 5, 100, -75};
    c.lo_ = rnd() % 2 ? offs[rnd() % 9] : rnd(-300, 300); c.ro_ = rnd() % 2 ? offs[rnd() % 9] : rnd(-300, 300);
    if (rnd() % 12 == 0) c.lo_ = rnd(-20000, 20000) ; else if (rnd() % 12 == 0) c.ro_ = rnd(-20000, 20000);
    c.pipe_a = rnd(-2000, 2000); c.pipe_b = PIPE == 1 ? rnd(1, 40) : (1 << 30) + (int)(rnd() % (1u << 30)); c.pipe_c = rnd(0, 20);
    if (PIPE == 4) c.pipe_a = rnd(-200, 200), c.pipe_c = rnd(0, 8);
    std::size_t nl = span(c.order[0], c.rows, c.depth, c.ls), nr = span(c.order[1], c.depth, c.cols, c.rss);
    nd = span(c.order[2], c.rows, c.cols, c.ds);
    if (nl > kA || nr > kA || nd * sizeof(Out) > kA) continue;
    pl = (std::uint8_t*)aL->get(nl, c.at_end); pr = (std::uint8_t*)aR->get(nr, c.at_end); pd = (Out*)aD->get(nd * sizeof(Out), c.at_end);
    L.resize(nl); R.resize(nr);
    std::uint64_t keep = rs; rs = c.dseed | 1;
    for (std::vector<std::uint8_t>* v : {&L, &R})
      for (auto& x : *v) switch (c.dist) {
          case 0: x = 255; break;
          case 1: x = rnd() % 2 ? 255 : 0; break;
          case 2: x = rnd() % 16 ? 255 : (std::uint8_t)rnd(); break;
          case 3: x = (std::uint8_t)(127 + rnd() % 3); break;
          case 4: x = rnd() % 16 ? 0 : (std::uint8_t)rnd(); break;
          default: x = (std::uint8_t)rnd();
        }
#ifdef S8
    for (auto& x : L) x ^= 128, x = x == 128 ? 129 : x;
    for (auto& x : R) x ^= 128;
#endif
#ifdef LNZ
    for (auto& x : L) if (!x) x = 1;
#endif
#ifdef B12
    for (auto& x : L) x = x > 128 ? (c.dist < 4 ? 128 : x % 129) : x;
    for (auto& x : R) x = x > 31 ? (c.dist < 4 ? 31 : x % 32) : x;
#endif
    LO.assign(c.rows, c.lo_); RO.assign(c.cols, c.ro_);
    if (kVec) { for (auto& x : LO) x = rnd(-300, 300); for (auto& x : RO) x = rnd(-300, 300); }
    bias.clear(); mul.clear(); off.clear();
    int np = c.rows > c.cols ? c.rows : c.cols;
#if PIPE == 3 || PIPE == 5
    np = c.cols;
#elif PIPE == 2 || PIPE == 6
    np = c.rows;
#endif
    for (int i = 0; i < np; i++) { bias.push_back(rnd(-100000, 100000)); mul.push_back(rnd(1, 40)); off.push_back(rnd(-2000, 2000)); }
    rs = keep;
    if (nl) memcpy(pl, L.data(), nl);
    if (nr) memcpy(pr, R.data(), nr);
    plo = place(aLo, LO); pro = place(aRo, RO); pbias = place(aB, bias); pmul = place(aM, mul); poff = place(aS, off);
    n++; if (c.threads != 1) threaded++;
    GemmContext* ctx = shared;
    const int fresh = rnd() % 8 == 0;
    if (fresh) ctx = new GemmContext;
    std::vector<Out> base;
    if (c04 || c05) {      // differential: the same call single-threaded / with default cache parameters
      phase = "baseline"; crash_is_fail = 0;
      GemmContext* b = new GemmContext;
      if (c04) run(b, 1, c.l1, c.l2, c.rf);
      else run(b, c.threads, kDefaultL1CacheSize, kDefaultL2CacheSize, kDefaultL2RhsFactor);
      delete b;
      base.assign(pd, pd + nd); crash_is_fail = 1;
    }
    phase = "call"; crash_is_fail = !(0);
    run(ctx, c.threads, c.l1, c.l2, c.rf);
    if (fresh) delete ctx;
    phase = "compare";
    if (c04 || c05) {
      for (std::size_t i = 0; i < nd; i++) if (base[i] != pd[i]) {
          char m[200]; snprintf(m, sizeof m, "result[%zu]=%ld differs from %ld %s", i, (long)pd[i], (long)base[i],
                                c04 ? "computed with one thread" : "computed with the default cache parameters");
          fail(m); }
      continue;
    }
    // zero sizes: nothing is written
    if (c03 || c01) {
      std::vector<char> isent(c03 ? nd : 0, 0);
      if (c03 && c.depth > 0) for (int i = 0; i < c.rows; i++) for (int j = 0; j < c.cols; j++) isent[at(c.order[2], i, j, c.ds)] = 1;
      Out can; memset(&can, CANARY, sizeof can);
      if (c03) for (std::size_t i = 0; i < nd; i++) if (!isent[i] && memcmp(&pd[i], &can, sizeof can)) {
          char m[200]; snprintf(m, sizeof m, "byte outside the result entries written (element %zu)", i); fail(m); }
      if (operands_changed()) fail("operand modified");
    }
    if (c03) {    // bytes that are not entries do not matter: change them, the result stays
      std::vector<Out> r1(pd, pd + nd);
      std::vector<char> el(nl, 0), er(nr, 0);
      for (int i = 0; i < c.rows; i++) for (int j = 0; j < c.depth; j++) el[at(c.order[0], i, j, c.ls)] = 1;
      for (int i = 0; i < c.depth; i++) for (int j = 0; j < c.cols; j++) er[at(c.order[1], i, j, c.rss)] = 1;
      for (std::size_t i = 0; i < nl; i++) if (!el[i]) pl[i] = (std::uint8_t)rnd();
      for (std::size_t i = 0; i < nr; i++) if (!er[i]) pr[i] = (std::uint8_t)rnd();
      run(shared, c.threads, c.l1, c.l2, c.rf);
      if (c.depth > 0 && nd && memcmp(r1.data(), pd, nd * sizeof(Out))) fail("result depends on bytes outside the operands' entries");
      continue;
    }
    if (!c.depth) continue;
    for (int i = 0; i < c.rows; i++) for (int j = 0; j < c.cols; j++) {
        std::uint32_t acc = 0;
        const std::uint8_t* a = &L[at(c.order[0], i, 0, c.ls)]; const std::uint8_t* b = &R[at(c.order[1], 0, j, c.rss)];
        const std::size_t sa = c.order[0] ? 1 : c.ls, sb = c.order[1] ? c.rss : 1;
        const std::int32_t x = LO[i], y = RO[j];
        for (int d = 0; d < c.depth; d++) acc += (std::uint32_t)(((In)a[d * sa] + x) * ((In)b[d * sb] + y));
        Out want = ref_pipe((std::int32_t)acc, i, j), got = pd[at(c.order[2], i, j, c.ds)];
        if (want != got) { char m[200]; snprintf(m, sizeof m, "result(%d,%d)=%ld, expected %ld", i, j, (long)got, (long)want); fail(m); }
      }
  }
  delete shared;
  printf("NOFAIL cases=%ld threaded=%ld seed=%llu\n", n, threaded, (unsigned long long)seed);
  return 0;
}
