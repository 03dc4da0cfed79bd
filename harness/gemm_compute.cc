// Compute's loops over the real PackedSideBlock and PackedResult.  The kernel is used through its contract
// (g_kernel), proved for the real kernels by the kernel harnesses.
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"
#include "v.h"
using namespace gemmlowp;
extern "C" {
void g_kernel(std::int32_t* dst, std::size_t rs, std::size_t cs, const std::uint8_t* lhs, const std::uint8_t* rhs, std::size_t sd, std::size_t rd);
void g_mark(int which);
void g_end();
}
#ifndef BDP
#define BDP DefaultL8R8BitDepthParams
#endif
typedef DefaultKernel<BDP>::Format F;
struct GhostKernel : KernelBase {
  const char* Name() const override { return ""; }
  void Run(std::int32_t* dst, std::size_t rs, std::size_t cs, const std::uint8_t* lhs, const std::uint8_t* rhs, std::size_t sd,
           std::size_t rd) const override { g_kernel(dst, rs, cs, lhs, rhs, sd, rd); }
};
extern "C" void cp(Allocator* a, int l1r, int l1c, int l1d, int l2r, int l2c, int l2d, int depth) {
  BlockParams bp;
  bp.l1_rows = l1r; bp.l1_cols = l1c; bp.l1_depth = l1d; bp.l2_rows = l2r; bp.l2_cols = l2c; bp.l2_depth = l2d;
  g_mark(0);
  PackedSideBlock<F::Lhs> lhs(Side::Lhs, a, bp);
  g_mark(1);
  PackedSideBlock<F::Rhs> rhs(Side::Rhs, a, bp);
  g_mark(2);
  PackedResult res(a, bp);
  GhostKernel k;
  Compute(k, bp, &res, lhs, rhs, depth);
  g_end();
}
extern "C" int k_rows() { return F::kRows; }
extern "C" int k_cols() { return F::kCols; }
extern "C" int k_depth() { return F::kDepth; }
extern "C" int k_rs() { return kRegisterSize; }
