// BlockParams::Init, GetSideBlockParams: real code, called on arbitrary sizes.
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"
#include "v.h"
using namespace gemmlowp;
typedef DefaultKernel<DefaultL8R8BitDepthParams> DK;
typedef DefaultKernel<L8R8WithLhsNonzeroBitDepthParams> DKN;
extern "C" void bp_result(int krows, int kcols, int kdepth, int kreg, int l1r, int l1c, int l1d, int l2r, int l2c, int l2d);
extern "C" void sb_result(int side, int l1w, int l1d, int l2w, int l2d);
template <typename F> static void run(int rows, int cols, int depth, int threads, int l1, int l2, float rf) {
  BlockParams p;
  p.Init<F>(rows, cols, depth, threads, l1, l2, rf);
  bp_result(F::kRows, F::kCols, F::kDepth, kRegisterSize, p.l1_rows, p.l1_cols, p.l1_depth, p.l2_rows, p.l2_cols, p.l2_depth);
}
template <int R, int C, int D> struct KF {
  static const int kRows = R, kCols = C, kDepth = D;
};
#define INST(N, F) \
  extern "C" void bp_##N(int rows, int cols, int depth, int threads, int l1, int l2, float rf) { run<F>(rows, cols, depth, threads, l1, l2, rf); }
INST(default, DK::Format)
INST(nonzero, DKN::Format)
typedef KF<3, 5, 1> K351;
INST(odd, K351)
extern "C" void side(int s, int a, int b, int c, int d, int e, int f) {
  BlockParams p;
  p.l1_rows = a; p.l1_cols = b; p.l1_depth = c; p.l2_rows = d; p.l2_cols = e; p.l2_depth = f;
  SideBlockParams q;
  GetSideBlockParams(s ? Side::Rhs : Side::Lhs, &q, p);
  sb_result(s, q.l1_width, q.l1_depth, q.l2_width, q.l2_depth);
}
