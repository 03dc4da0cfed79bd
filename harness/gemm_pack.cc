// PackLhs / PackRhs and PackSideBlockImpl's loops over the real PackedSideBlock.  The register-block operations
// (MakeCompleteSrc, UseCompleteSrcInPlace, Pack) are used through their contracts, proved by gemm_packleaf.cc;
// the allocator hands out one fresh block per reservation (proved by the allocator harness).
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"
#include "v.h"
using namespace gemmlowp;
extern "C" {
void g_built(void* psb);
void g_src(const void* data, int width, int depth, int stride);
void g_end();
}
#ifndef BDP
#define BDP DefaultL8R8BitDepthParams
#endif
typedef DefaultKernel<BDP> K;
template <int S> struct SF { typedef K::Format::Lhs F; };
template <> struct SF<1> { typedef K::Format::Rhs F; };
template <int S> struct Psb { typedef PackedSideBlock<typename SF<S>::F> T; };
template <int S> struct Do { template <typename P, typename M> static void pack(P* p, const M& m) { PackLhs(p, m); } };
template <> struct Do<1> { template <typename P, typename M> static void pack(P* p, const M& m) { PackRhs(p, m); } };
template <int S, int O>
static void run(const std::uint8_t* src, int rows, int cols, int stride, Allocator* a, int l1r, int l1c, int l1d, int l2r, int l2c, int l2d) {
  BlockParams bp;
  bp.l1_rows = l1r; bp.l1_cols = l1c; bp.l1_depth = l1d; bp.l2_rows = l2r; bp.l2_cols = l2c; bp.l2_depth = l2d;
  typename Psb<S>::T p(S ? Side::Rhs : Side::Lhs, a, bp);
  g_built(&p);
  MatrixMap<const std::uint8_t, O ? MapOrder::RowMajor : MapOrder::ColMajor> m(src, rows, cols, stride);
  Do<S>::pack(&p, m);
  g_end();
}
#define INST(S, O, SO) \
  extern "C" void pk_##S##O(const std::uint8_t* src, int rows, int cols, int stride, Allocator* a, int l1r, int l1c, int l1d, int l2r, int l2c, int l2d) { \
    run<S, O>(src, rows, cols, stride, a, l1r, l1c, l1d, l2r, l2c, l2d); } \
  extern "C" void see_src_##S##O(const SideMap<const std::uint8_t, SO>* m) { g_src(m->data(), m->width(), m->depth(), m->stride()); } \
  extern "C" const std::uint8_t* see_data_##S##O(const SideMap<const std::uint8_t, SO>* m, int w, int d) { return m->data(w, d); }
INST(0, 0, SideMapOrder::DepthMajor)
INST(0, 1, SideMapOrder::WidthMajor)
INST(1, 0, SideMapOrder::WidthMajor)
INST(1, 1, SideMapOrder::DepthMajor)
#define SEE(S) \
  extern "C" std::uint8_t* see_pos_##S(Psb<S>::T* p) { return p->current_data(); } \
  extern "C" std::int32_t* see_sums_##S(Psb<S>::T* p) { return p->sums_of_each_slice(); } \
  extern "C" void adv_##S(Psb<S>::T* p) { p->seek_forward_n_cells(SF<S>::F::kCells * kRegisterSize / SF<S>::F::Cell::kDepth); } \
  extern "C" int kw_##S() { return SF<S>::F::kWidth; } \
  extern "C" int kr_##S() { return kRegisterSize; }
SEE(0)
SEE(1)
