// The public entry points down to the multi-threaded driver: zero sizes, the choice between a product and its transpose, and the
// transposition of operands, offsets and output stages.  MultiThreadGemm is a ghost reporting what it is asked to compute;
// the text of dispatch_gemm_shape.h and gemmlowp.h is /repo's.
#include "public/gemmlowp.h"
#include "v.h"
extern "C" {
void g_mat(int what, int order, const void* data, int rows, int cols, int stride);
void g_vec(int what, int shape, const void* data, int size);
void g_dup(int what, int value, int size);
void g_stage(int kind, int a, int b, int c);
void g_call(const void* context, const void* kernel_tag);
void g_end();
}
namespace gv {
using namespace gemmlowp;
template <typename S, VectorShape Sh> void off(int what, const VectorMap<S, Sh>& v) { g_vec(what, (int)Sh, v.data(), v.size()); }
template <typename S, VectorShape Sh> void off(int what, const VectorDup<S, Sh>& v) { g_dup(what, v(0), v.size()); }
template <VectorShape Sh> void stage(const OutputStageQuantizeDownInt32ToUint8ScalePC<Sh>& s) {
  g_stage(1, s.result_shift, 0, 0); off(2, s.result_offset); off(3, s.result_mult_int); }
template <VectorShape Sh> void stage(const OutputStageScaleInt32ByFixedPointAndExponentPC<Sh>& s) {
  g_stage(2, s.result_offset_after_shift, 0, 0); off(2, s.result_fixedpoint_multiplier); off(3, s.result_exponent); }
template <typename V> void stage(const OutputStageBiasAddition<V>& s) { g_stage(3, 0, 0, 0); off(2, s.bias_vector); }
inline void stage(const OutputStageQuantizeDownInt32ToUint8Scale& s) { g_stage(4, s.result_offset, s.result_mult_int, s.result_shift); }
inline void stage(const OutputStageQuantizeDownInt32ByFixedPoint& s) { g_stage(5, s.result_fixedpoint_multiplier, s.result_shift, s.result_offset_after_shift); }
inline void stage(const OutputStageScaleInt32ByFixedPointAndExponent& s) { g_stage(6, s.result_fixedpoint_multiplier, s.result_exponent, s.result_offset_after_shift); }
inline void stage(const OutputStageClamp& s) { g_stage(7, s.min, s.max, 0); }
inline void stage(const OutputStageTanh& s) { g_stage(8, s.real_zero_as_int32, s.real_amplitude_as_int32, 0); }
inline void stage(const OutputStageSaturatingCastToUint8&) { g_stage(9, 0, 0, 0); }
inline void stage(const OutputStageSaturatingCastToInt8&) { g_stage(10, 0, 0, 0); }
inline void stage(const OutputStageSaturatingCastToInt16&) { g_stage(11, 0, 0, 0); }
inline void stage(const OutputStageTruncatingCastToUint8&) { g_stage(12, 0, 0, 0); }
template <typename T, int I, int N> struct Stages { static void go(const T& t) { stage(std::get<I>(t)); Stages<T, I + 1, N>::go(t); } };
template <typename T, int N> struct Stages<T, N, N> { static void go(const T&) {} };
}  // namespace gv
namespace gemmlowp {
template <typename KernelFormat, typename InputScalar, typename OutputScalar, typename BitDepthParams, MapOrder LhsOrder, MapOrder RhsOrder,
          MapOrder ResultOrder, typename LhsOffset, typename RhsOffset, typename OutputPipelineType, typename GemmContextType>
void GhostMultiThreadGemm(GemmContextType* context, const KernelBase& kernel, const MatrixMap<const InputScalar, LhsOrder>& lhs,
                          const MatrixMap<const InputScalar, RhsOrder>& rhs, MatrixMap<OutputScalar, ResultOrder>* result,
                          const LhsOffset& lhs_offset, const RhsOffset& rhs_offset, const OutputPipelineType& output_pipeline) {
  g_call(context, 0);
  g_mat(0, (int)LhsOrder, lhs.data(), lhs.rows(), lhs.cols(), lhs.stride());
  g_mat(1, (int)RhsOrder, rhs.data(), rhs.rows(), rhs.cols(), rhs.stride());
  g_mat(2, (int)ResultOrder, result->data(), result->rows(), result->cols(), result->stride());
  gv::off(0, lhs_offset);
  gv::off(1, rhs_offset);
  gv::Stages<OutputPipelineType, 0, (int)std::tuple_size<OutputPipelineType>::value>::go(output_pipeline);
}
}
#undef GEMMLOWP_INTERNAL_DISPATCH_GEMM_SHAPE_H_
#undef GEMMLOWP_PUBLIC_GEMMLOWP_H_
#define MultiThreadGemm GhostMultiThreadGemm
#define DispatchGemmShape DispatchGemmShape_g
#define GemmWithOutputPipeline GemmWithOutputPipeline_g
#define GemmWithOutputPipelinePC GemmWithOutputPipelinePC_g
#define Gemm Gemm_g
#define GemmContext GemmContext_g
#define Transpose Transpose_g
#define TransposeImpl TransposeImpl_g
#define TransposeType TransposeType_g
#define TransposeMapOrder TransposeMapOrder_g
#define TransposeVectorShape TransposeVectorShape_g
#define TransposeTuple TransposeTuple_g
#include "public/gemmlowp.h"
using namespace gemmlowp;
typedef VectorMap<const std::int32_t, VectorShape::Col> CV;
typedef VectorMap<const std::int32_t, VectorShape::Row> RV;
struct P {      // what the caller passes
  void* ctx; const std::uint8_t* l; const std::uint8_t* r; void* d; int rows, depth, cols, ls, rs, ds;
  const std::int32_t* lo; const std::int32_t* ro; int lov, rov; const std::int32_t* v1; const std::int32_t* v2; const std::int32_t* v3; const std::int32_t* v4;
  int a, b, c, e, f;
};
template <int N> struct Pipe;
template <> struct Pipe<0> { typedef std::int32_t Out; static std::tuple<> mk(const P&) { return std::tuple<>(); } };
template <> struct Pipe<1> { typedef std::uint8_t Out;
  static std::tuple<OutputStageBiasAddition<CV>, OutputStageQuantizeDownInt32ByFixedPoint, OutputStageClamp, OutputStageSaturatingCastToUint8> mk(const P& p) {
    OutputStageBiasAddition<CV> s; s.bias_vector = CV(p.v1, p.rows);
    OutputStageQuantizeDownInt32ByFixedPoint q; q.result_fixedpoint_multiplier = p.a; q.result_shift = p.b; q.result_offset_after_shift = p.c;
    OutputStageClamp c; c.min = p.e; c.max = p.f;
    return std::make_tuple(s, q, c, OutputStageSaturatingCastToUint8()); } };
template <> struct Pipe<2> { typedef std::int16_t Out;
  static std::tuple<OutputStageBiasAddition<RV>, OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Col>, OutputStageSaturatingCastToInt16> mk(const P& p) {
    OutputStageBiasAddition<RV> s; s.bias_vector = RV(p.v1, p.cols);
    OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Col> q;
    q.result_fixedpoint_multiplier = CV(p.v2, p.rows); q.result_exponent = CV(p.v3, p.rows); q.result_offset_after_shift = p.a;
    return std::make_tuple(s, q, OutputStageSaturatingCastToInt16()); } };
template <> struct Pipe<3> { typedef std::uint8_t Out;
  static std::tuple<OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Row>, OutputStageSaturatingCastToUint8> mk(const P& p) {
    OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Row> q;
    q.result_offset = RV(p.v1, p.cols); q.result_mult_int = RV(p.v2, p.cols); q.result_shift = p.a;
    return std::make_tuple(q, OutputStageSaturatingCastToUint8()); } };
template <> struct Pipe<4> { typedef std::uint8_t Out;
  static std::tuple<OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Col>, OutputStageSaturatingCastToUint8> mk(const P& p) {
    OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Col> q;
    q.result_offset = CV(p.v1, p.rows); q.result_mult_int = CV(p.v2, p.rows); q.result_shift = p.a;
    return std::make_tuple(q, OutputStageSaturatingCastToUint8()); } };
template <> struct Pipe<5> { typedef std::uint8_t Out;
  static std::tuple<OutputStageBiasAddition<CV>, OutputStageBiasAddition<RV>, OutputStageScaleInt32ByFixedPointAndExponent, OutputStageClamp, OutputStageTanh, OutputStageSaturatingCastToUint8> mk(const P& p) {
    OutputStageBiasAddition<CV> s; s.bias_vector = CV(p.v1, p.rows);
    OutputStageBiasAddition<RV> t; t.bias_vector = RV(p.v2, p.cols);
    OutputStageScaleInt32ByFixedPointAndExponent q; q.result_fixedpoint_multiplier = p.a; q.result_exponent = p.b; q.result_offset_after_shift = p.c;
    OutputStageClamp c; c.min = p.e; c.max = p.f;
    OutputStageTanh h; h.real_zero_as_int32 = p.b; h.real_amplitude_as_int32 = p.a;
    return std::make_tuple(s, t, q, c, h, OutputStageSaturatingCastToUint8()); } };
template <> struct Pipe<6> { typedef std::int16_t Out;
  static std::tuple<OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Row>> mk(const P& p) {
    OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Row> q;
    q.result_fixedpoint_multiplier = RV(p.v2, p.cols); q.result_exponent = RV(p.v3, p.cols); q.result_offset_after_shift = p.a;
    return std::make_tuple(q); } };
template <> struct Pipe<7> { typedef std::uint8_t Out;
  static std::tuple<OutputStageQuantizeDownInt32ToUint8Scale, OutputStageClamp, OutputStageBiasAddition<RV>, OutputStageBiasAddition<CV>, OutputStageSaturatingCastToUint8> mk(const P& p) {
    OutputStageBiasAddition<CV> s; s.bias_vector = CV(p.v1, p.rows);
    OutputStageBiasAddition<RV> t; t.bias_vector = RV(p.v2, p.cols);
    OutputStageQuantizeDownInt32ToUint8Scale q; q.result_offset = p.a; q.result_mult_int = p.b; q.result_shift = p.c;
    OutputStageClamp c; c.min = p.e; c.max = p.f;
    return std::make_tuple(q, c, t, s, OutputStageSaturatingCastToUint8()); } };
#define O(x) ((x) ? MapOrder::RowMajor : MapOrder::ColMajor)
template <int L, int R, int D, int N, int V> static void go(const P& p) {
  typedef typename Pipe<N>::Out Out;
  MatrixMap<const std::uint8_t, O(L)> l(p.l, p.rows, p.depth, p.ls);
  MatrixMap<const std::uint8_t, O(R)> r(p.r, p.depth, p.cols, p.rs);
  MatrixMap<Out, O(D)> d((Out*)p.d, p.rows, p.cols, p.ds);
  GemmContext* ctx = (GemmContext*)p.ctx;
  if (V) GemmWithOutputPipelinePC<std::uint8_t, Out, DefaultL8R8BitDepthParams>(ctx, l, r, &d, CV(p.lo, p.rows), RV(p.ro, p.cols), Pipe<N>::mk(p));
  else GemmWithOutputPipeline<std::uint8_t, Out, DefaultL8R8BitDepthParams>(ctx, l, r, &d, p.lov, p.rov, Pipe<N>::mk(p));
  g_end();
}
template <int L, int R, int D> static void legacy(const P& p) {
  MatrixMap<const std::uint8_t, O(L)> l(p.l, p.rows, p.depth, p.ls);
  MatrixMap<const std::uint8_t, O(R)> r(p.r, p.depth, p.cols, p.rs);
  MatrixMap<std::uint8_t, O(D)> d((std::uint8_t*)p.d, p.rows, p.cols, p.ds);
  Gemm<std::uint8_t, DefaultL8R8BitDepthParams>((GemmContext*)p.ctx, l, r, &d, p.lov, p.rov, p.a, p.b, p.c);
  g_end();
}
#define ARGS void* ctx, const std::uint8_t* l, const std::uint8_t* r, void* d, int rows, int depth, int cols, int ls, int rs, int ds, \
  const std::int32_t* lo, const std::int32_t* ro, int lov, int rov, const std::int32_t* v1, const std::int32_t* v2, const std::int32_t* v3, \
  const std::int32_t* v4, int a, int b, int c, int e, int f
#define MK P p{ctx, l, r, d, rows, depth, cols, ls, rs, ds, lo, ro, lov, rov, v1, v2, v3, v4, a, b, c, e, f}
#define F(L, R, D, N, V) extern "C" void dg_##L##R##D##N##V(ARGS) { MK; go<L, R, D, N, V>(p); }
#define FP(L, R, D, V) F(L, R, D, 0, V) F(L, R, D, 1, V) F(L, R, D, 2, V) F(L, R, D, 3, V) F(L, R, D, 4, V) F(L, R, D, 5, V) F(L, R, D, 6, V) F(L, R, D, 7, V) 
#define FA(L, R, D) FP(L, R, D, 0) FP(L, R, D, 1) extern "C" void dl_##L##R##D(ARGS) { MK; legacy<L, R, D>(p); }
FA(0, 0, 0) FA(0, 0, 1) FA(0, 1, 0) FA(0, 1, 1) FA(1, 0, 0) FA(1, 0, 1) FA(1, 1, 0) FA(1, 1, 1)
extern "C" int k_row() { return (int)MapOrder::RowMajor; }
extern "C" int k_vrow() { return (int)VectorShape::Row; }
