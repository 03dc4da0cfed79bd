// EightBitIntGemm (the C-style interface) down to Gemm / GemmWithOutputPipeline, which are ghosts reporting what they are asked for.
// The text of eight_bit_int_gemm.cc is /repo's; the harness only renames the two callees.
#include <memory>
#include "public/gemmlowp.h"
#include "v.h"
extern "C" {
void g_mat(int what, int order, const void* data, int rows, int cols, int stride, int elsize);
void g_gemm(const void* context, int stages, int loff, int roff, int off, int mult, int shift);
void g_depth(int lmin, int lmax, int rmin, int rmax);
void g_end();
}
namespace gemmlowp {
template <typename I, typename O, typename B, typename C, typename L, typename R, typename D>
void ghost(C* ctx, int stages, const L& lhs, const R& rhs, D* d, int lo, int ro, int off, int mult, int shift) {
  g_mat(0, (int)L::kOrder, lhs.data(), lhs.rows(), lhs.cols(), lhs.stride(), sizeof(I));
  g_mat(1, (int)R::kOrder, rhs.data(), rhs.rows(), rhs.cols(), rhs.stride(), sizeof(I));
  g_mat(2, (int)D::kOrder, d->data(), d->rows(), d->cols(), d->stride(), sizeof(O));
  g_depth((int)B::LhsRange::kMinValue, (int)B::LhsRange::kMaxValue, (int)B::RhsRange::kMinValue, (int)B::RhsRange::kMaxValue);
  g_gemm(ctx, stages, lo, ro, off, mult, shift);
}
template <typename Scalar, typename BitDepthParams, MapOrder LhsOrder, MapOrder RhsOrder, MapOrder ResultOrder, typename GemmContextType>
void GhostGemm(GemmContextType* context, const MatrixMap<const Scalar, LhsOrder>& lhs, const MatrixMap<const Scalar, RhsOrder>& rhs,
               MatrixMap<Scalar, ResultOrder>* result, int lhs_offset, int rhs_offset, int result_offset, int result_mult_int, int result_shift) {
  ghost<Scalar, Scalar, BitDepthParams>(context, 2, lhs, rhs, result, lhs_offset, rhs_offset, result_offset, result_mult_int, result_shift);
}
inline void ghost_stages(const std::tuple<>&, int* n, int*, int*, int*) { *n = 0; }
inline void ghost_stages(const std::tuple<OutputStageQuantizeDownInt32ToUint8Scale, OutputStageSaturatingCastToUint8>& t, int* n, int* off,
                         int* mult, int* shift) {
  const OutputStageQuantizeDownInt32ToUint8Scale& q = std::get<0>(t);
  *n = 2; *off = q.result_offset; *mult = q.result_mult_int; *shift = q.result_shift;
}
template <typename InputScalar, typename OutputScalar, typename BitDepthParams, MapOrder LhsOrder, MapOrder RhsOrder, MapOrder ResultOrder,
          typename OutputPipelineType, typename GemmContextType>
void GhostGemmWithOutputPipeline(GemmContextType* context, const MatrixMap<const InputScalar, LhsOrder>& lhs,
                                 const MatrixMap<const InputScalar, RhsOrder>& rhs, MatrixMap<OutputScalar, ResultOrder>* result,
                                 int lhs_offset, int rhs_offset, const OutputPipelineType& p) {
  int n = 0, off = 0, mult = 0, shift = 0;
  ghost_stages(p, &n, &off, &mult, &shift);
  ghost<InputScalar, OutputScalar, BitDepthParams>(context, n, lhs, rhs, result, lhs_offset, rhs_offset, off, mult, shift);
}
}  // namespace gemmlowp
#define Gemm GhostGemm
#define GemmWithOutputPipeline GhostGemmWithOutputPipeline
#include "eight_bit_int_gemm/eight_bit_int_gemm.cc"
#undef Gemm
#undef GemmWithOutputPipeline
namespace ebi = gemmlowp::eight_bit_int_gemm;
#define ARGS bool ta, bool tb, bool tc, int m, int n, int k, const std::uint8_t *a, std::int32_t ao, int lda, const std::uint8_t *b, \
  std::int32_t bo, int ldb
extern "C" void ebi_u8(ARGS, std::uint8_t* c, std::int32_t co, std::int32_t cm, std::int32_t cs, int ldc, int bits) {
  ebi::EightBitIntGemm(ta, tb, tc, m, n, k, a, ao, lda, b, bo, ldb, c, co, cm, cs, ldc, (ebi::BitDepthSetting)bits);
  g_end();
}
extern "C" void ebi_f(ARGS, float* c, float co, int ldc, int bits) {
  ebi::EightBitIntGemm(ta, tb, tc, m, n, k, a, ao, lda, b, bo, ldb, c, co, ldc, (ebi::BitDepthSetting)bits);
  g_end();
}
// an earlier call left scratch memory of some size: AssureSize either keeps the buffer or replaces it by one of this form
extern "C" void ebi_prep(int size) { ebi::GetOrCreateGlobalScratch()->AssureSize(size); }
extern "C" void* ebi_ctx() { return ebi::global_context; }
extern "C" void* ebi_scr() { return ebi::global_scratch; }
extern "C" void ebi_threads(int n) { ebi::SetMaxNumThreads(n); g_end(); }
extern "C" void ebi_free() { ebi::FreePersistentResources(); g_end(); }
extern "C" int ebi_get_threads(void* c) { return ((gemmlowp::GemmContext*)c)->max_num_threads(); }
extern "C" int k_row() { return (int)gemmlowp::MapOrder::RowMajor; }
extern "C" int k_a8b8() { return (int)ebi::BitDepthSetting::A8B8; }
extern "C" int k_a5b7() { return (int)ebi::BitDepthSetting::A5B7; }
