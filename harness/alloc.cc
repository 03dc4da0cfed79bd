// Allocator: one commit cycle after any history.
#include "internal/allocator.h"
#include "v.h"
extern "C" { void g_cycle(); void g_block(int i, const void* p, std::size_t bytes); void g_end(); }
using namespace gemmlowp;
typedef Allocator::Handle H;
// between cycles the storage is either absent or what one earlier growing Commit left: a later Commit keeps it or replaces it altogether
template <int K> struct R { static H go(Allocator* a, std::size_t n) { return a->Reserve<std::uint8_t>(n); }
  static void see(const Allocator& a, int i, const H& h, std::size_t n) { g_block(i, a.GetPointer<std::uint8_t>(h), n); } };
template <> struct R<1> { static H go(Allocator* a, std::size_t n) { return a->Reserve<std::int32_t>(n); }
  static void see(const Allocator& a, int i, const H& h, std::size_t n) { g_block(i, a.GetPointer<std::int32_t>(h), 4 * n); } };
template <> struct R<2> { static H go(Allocator* a, std::size_t n) { return a->Reserve<std::int16_t>(n); }
  static void see(const Allocator& a, int i, const H& h, std::size_t n) { g_block(i, a.GetPointer<std::int16_t>(h), 2 * n); } };
template <int B, int M> static void cycle(Allocator* a, std::size_t n0, std::size_t n1, std::size_t n2, std::size_t n3, std::size_t n4) {
  g_cycle();
  H h0 = R<M % 3>::go(a, n0), h1, h2, h3, h4;
  if (B > 1) h1 = R<(M / 3) % 3>::go(a, n1);
  if (B > 2) h2 = R<(M + 1) % 3>::go(a, n2);
  if (B > 3) h3 = R<(M + 2) % 3>::go(a, n3);
  if (B > 4) h4 = R<M % 2>::go(a, n4);
  a->Commit();
  R<M % 3>::see(*a, 0, h0, n0);
  if (B > 1) R<(M / 3) % 3>::see(*a, 1, h1, n1);
  if (B > 2) R<(M + 1) % 3>::see(*a, 2, h2, n2);
  if (B > 3) R<(M + 2) % 3>::see(*a, 3, h3, n3);
  if (B > 4) R<M % 2>::see(*a, 4, h4, n4);
  a->Decommit();
}
#define ARGS std::size_t n0, std::size_t n1, std::size_t n2, std::size_t n3, std::size_t n4, std::size_t x, std::size_t y
template <int B, int M> static void fresh(ARGS) { { Allocator a; cycle<B, M>(&a, n0, n1, n2, n3, n4); } g_end(); }
template <int B, int M> static void used(ARGS) { { Allocator a; cycle<1, 0>(&a, x, 0, 0, 0, 0); cycle<B, M>(&a, n0, n1, n2, n3, n4); } g_end(); }
template <int B, int M> static void used2(ARGS) { { Allocator a; cycle<1, 1>(&a, x, 0, 0, 0, 0); cycle<2, 0>(&a, y, x, 0, 0, 0); cycle<B, M>(&a, n0, n1, n2, n3, n4); } g_end(); }
#define F(B, M) extern "C" void al_f##B##M(ARGS) { fresh<B, M>(n0, n1, n2, n3, n4, x, y); } extern "C" void al_u##B##M(ARGS) { used<B, M>(n0, n1, n2, n3, n4, x, y); } \
  extern "C" void al_v##B##M(ARGS) { used2<B, M>(n0, n1, n2, n3, n4, x, y); }
F(1, 0) F(1, 1) F(2, 1) F(2, 3) F(3, 4) F(3, 1) F(4, 5) F(5, 1) F(5, 6)
extern "C" void al_none() { { Allocator a; a.Commit(); a.Decommit(); } g_end(); }
extern "C" std::size_t k_align() { return Allocator::kAlignment; }
extern "C" std::size_t k_line() { return kDefaultCacheLineSize; }
extern "C" std::size_t ob_pow2(std::size_t n) { return RoundUpToPowerOfTwo(n); }
