// Output pipeline stages: for every register block shape used by the unpack code, the
// value stored at each destination cell is the documented function of the accumulator
// at that cell (and of the per-channel entry selected by its row or column), and no
// other destination element is written.
#include <tuple>
#include "v.h"
#include "spec.h"
#include "public/gemmlowp.h"
using namespace gemmlowp;

enum { kGR = 3, kGC = 5 };  // global coordinates of the block's corner
#define COLS VectorShape::Row
#define ROWS VectorShape::Col

template <int R, int C, typename D, MapOrder order, typename P, typename S>
static inline void cell(const i32* in, const P& pipeline, const S& spec, const char* what, const char* frame) {
  typedef RegisterBlock<i32, R, C> Block;
  i32 src[R * C];
  for (int i = 0; i < R * C; i++) src[i] = in[i];
  MatrixMap<const i32, MapOrder::ColMajor> smap(src, R, C, R);
  OutputPipelineExecutor<P, Block> ex(pipeline);
  enum { PR = R + 2, PC = C + 2, STRIDE = (order == MapOrder::ColMajor ? PR : PC) + 1,
         N = STRIDE * (order == MapOrder::ColMajor ? PC : PR) };
  D dst[N], old[N];
  for (int i = 0; i < N; i++) dst[i] = old[i] = D(37 + i);
  MatrixMap<D, order> dmap(dst, PR, PC, STRIDE);
  ex.Execute(Load<Block>(smap, 0, 0), &dmap, kGR, kGC, 1, 1);
  bool clean = true;
  for (int a = 0; a < (order == MapOrder::ColMajor ? PC : PR); a++)
    for (int b = 0; b < STRIDE; b++) {
      int r = (order == MapOrder::ColMajor ? b : a) - 1, c = (order == MapOrder::ColMajor ? a : b) - 1;
      D got = dst[a * STRIDE + b];
      if (r >= 0 && r < R && c >= 0 && c < C)
        __v_assert(got == spec(src[r + c * R], kGR + r, kGC + c), what);
      else
        clean = clean & (got == old[a * STRIDE + b]);
    }
  __v_assert(clean, frame);
}
template <typename D, typename P, typename S>
static inline void all_shapes(const i32* in, const P& p, const S& s, const char* what, const char* frame) {
  cell<8, 4, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<4, 4, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<1, 4, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<8, 1, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<4, 1, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<1, 1, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<8, 4, D, MapOrder::RowMajor>(in, p, s, what, frame);
  cell<4, 4, D, MapOrder::RowMajor>(in, p, s, what, frame);
  cell<1, 4, D, MapOrder::RowMajor>(in, p, s, what, frame);
  cell<8, 1, D, MapOrder::RowMajor>(in, p, s, what, frame);
  cell<4, 1, D, MapOrder::RowMajor>(in, p, s, what, frame);
  cell<1, 1, D, MapOrder::RowMajor>(in, p, s, what, frame);
}
// one register block's worth, for the costlier arithmetic stages (stores are covered above)
template <typename D, typename P, typename S>
static inline void eval_shapes(const i32* in, const P& p, const S& s, const char* what, const char* frame) {
  cell<8, 4, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<4, 4, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<1, 4, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<8, 1, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<4, 1, D, MapOrder::ColMajor>(in, p, s, what, frame);
  cell<1, 1, D, MapOrder::ColMajor>(in, p, s, what, frame);
}
#define FR "no destination element outside the block is written"
static inline i32 wadd(i32 a, i32 b) { return i32(std::uint32_t(a) + std::uint32_t(b)); }
static inline i32 wmul(i32 a, i32 b) { return i32(std::uint32_t(a) * std::uint32_t(b)); }
static inline i32 clampi(i32 x, i32 lo, i32 hi) { return x < lo ? lo : x > hi ? hi : x; }

OB(raw_int32) {
  all_shapes<i32>(in, std::tuple<>(), [](i32 x, int, int) { return x; }, "an empty pipeline stores the accumulator", FR);
}
OB(cast_uint8) {
  all_shapes<std::uint8_t>(in, std::make_tuple(OutputStageSaturatingCastToUint8()),
                           [](i32 x, int, int) { return std::uint8_t(clampi(x, 0, 255)); }, "saturating cast to uint8", FR);
}
#if !defined(GEMMLOWP_SSE4)  // not provided for SSE by the library
OB(cast_int8) {
  all_shapes<std::int8_t>(in, std::make_tuple(OutputStageSaturatingCastToInt8()),
                          [](i32 x, int, int) { return std::int8_t(clampi(x, -128, 127)); }, "saturating cast to int8", FR);
}
#endif
OB(cast_int16) {
  all_shapes<std::int16_t>(in, std::make_tuple(OutputStageSaturatingCastToInt16()),
                           [](i32 x, int, int) { return std::int16_t(clampi(x, -32768, 32767)); }, "saturating cast to int16", FR);
}
#if !defined(GEMMLOWP_SSE4) && !defined(GEMMLOWP_NEON)
OB(trunc_uint8) {
  for (int i = 0; i < 32; i++) __v_assume(in[i] >= 0 && in[i] <= 255);
  __v_cover("pre");
  all_shapes<std::uint8_t>(in, std::make_tuple(OutputStageTruncatingCastToUint8()),
                           [](i32 x, int, int) { return std::uint8_t(x); }, "truncating cast of a value in [0,255]", FR);
}
#endif
OB(clamp) {
  OutputStageClamp st;
  st.min = in[40];
  st.max = in[41];
  i32 lo = in[40], hi = in[41];
  __v_assume(lo <= hi);
  __v_cover("pre");
  eval_shapes<i32>(in, std::make_tuple(st), [=](i32 x, int, int) { return clampi(x, lo, hi); }, "clamp to [min,max]", FR);
}
OB(quantize_down) {
  OutputStageQuantizeDownInt32ToUint8Scale st;
  st.result_offset = in[40];
  st.result_mult_int = in[41];
  st.result_shift = in[42];
  i32 off = in[40], mult = in[41], sh = in[42];
  __v_assume(sh >= 0 && sh <= 31);
  __v_cover("pre");
  eval_shapes<i32>(in, std::make_tuple(st),
                   [=](i32 x, int, int) { return i32(spec_rdivpot(wmul(wadd(x, off), mult), sh)); },
                   "quantize down: (x+offset)*mult/2^shift rounded to nearest", FR);
}
OB(quantize_fixedpoint) {
  OutputStageQuantizeDownInt32ByFixedPoint st;
  st.result_fixedpoint_multiplier = in[40];
  st.result_shift = in[41];
  st.result_offset_after_shift = in[42];
  i32 mult = in[40], sh = in[41], off = in[42];
  __v_assume(sh >= 0 && sh <= 31);
  __v_cover("pre");
  eval_shapes<i32>(in, std::make_tuple(st),
                   [=](i32 x, int, int) { return wadd(i32(spec_rdivpot(spec_srdhm(x, mult), sh)), off); },
                   "quantize by fixed point: rdivpot(srdhm(x,mult),shift)+offset", FR);
}
OB(scale_exponent) {
  OutputStageScaleInt32ByFixedPointAndExponent st;
  st.result_fixedpoint_multiplier = in[40];
  st.result_exponent = in[41];
  st.result_offset_after_shift = in[42];
  i32 mult = in[40], e = in[41], off = in[42];
  __v_assume(e >= -31 && e <= 30);
  int ls = e > 0 ? e : 0, rs = e < 0 ? -e : 0;
  i32 lim = 0x7fffffff >> ls;
  for (int i = 0; i < 32; i++) __v_assume((in[i] <= lim) & (in[i] >= -lim - 1));
  __v_cover("pre");
  eval_shapes<i32>(in, std::make_tuple(st),
                   [=](i32 x, int, int) { return wadd(i32(spec_rdivpot(spec_srdhm(i32(i64(x) << ls), mult), rs)), off); },
                   "scale by fixed point and exponent", FR);
}
OB(bias_row) {
  const i32* v = in + 64;
  OutputStageBiasAddition<VectorMap<const i32, COLS>> st;
  st.bias_vector = VectorMap<const i32, COLS>(v, 16);
  eval_shapes<i32>(in, std::make_tuple(st), [=](i32 x, int, int c) { return wadd(x, v[c]); },
                   "bias row vector: entry of the cell's column is added", FR);
}
OB(bias_col) {
  const i32* v = in + 64;
  OutputStageBiasAddition<VectorMap<const i32, ROWS>> st;
  st.bias_vector = VectorMap<const i32, ROWS>(v, 16);
  eval_shapes<i32>(in, std::make_tuple(st), [=](i32 x, int r, int) { return wadd(x, v[r]); },
                   "bias column vector: entry of the cell's row is added", FR);
}
OB(quantize_down_pc_col) {
  const i32 *o = in + 64, *m = in + 96;
  OutputStageQuantizeDownInt32ToUint8ScalePC<ROWS> st;
  st.result_offset = VectorMap<const i32, ROWS>(o, 16);
  st.result_mult_int = VectorMap<const i32, ROWS>(m, 16);
  i32 sh = st.result_shift = in[40];
  __v_assume(sh >= 0 && sh <= 31);
  __v_cover("pre");
  eval_shapes<i32>(in, std::make_tuple(st),
                   [=](i32 x, int r, int) { return i32(spec_rdivpot(wmul(wadd(x, o[r]), m[r]), sh)); },
                   "per-row quantize down uses the entries of the cell's row", FR);
}
OB(quantize_down_pc_row) {
  const i32 *o = in + 64, *m = in + 96;
  OutputStageQuantizeDownInt32ToUint8ScalePC<COLS> st;
  st.result_offset = VectorMap<const i32, COLS>(o, 16);
  st.result_mult_int = VectorMap<const i32, COLS>(m, 16);
  i32 sh = st.result_shift = in[40];
  __v_assume(sh >= 0 && sh <= 31);
  __v_cover("pre");
  eval_shapes<i32>(in, std::make_tuple(st),
                   [=](i32 x, int, int c) { return i32(spec_rdivpot(wmul(wadd(x, o[c]), m[c]), sh)); },
                   "per-column quantize down uses the entries of the cell's column", FR);
}
#if !defined(GEMMLOWP_SSE4)  // needs per-lane shifts: not provided for SSE by the library
template <VectorShape SH>
static inline void scale_pc(const i32* in, const char* what) {
  const i32 *m = in + 64, *ex = in + 96;
  OutputStageScaleInt32ByFixedPointAndExponentPC<SH> st;
  st.result_fixedpoint_multiplier = VectorMap<const i32, SH>(m, 16);
  st.result_exponent = VectorMap<const i32, SH>(ex, 16);
  i32 off = st.result_offset_after_shift = in[40];
  for (int i = 0; i < 16; i++) __v_assume((ex[i] >= -31) & (ex[i] <= 30));
  // the accumulators are small enough for every exponent used: no overflow in the left shift
  i32 mx = in[41];
  __v_assume((mx >= 0) & (mx <= 30));
  i32 lim = 0x7fffffff >> mx;
  for (int i = 0; i < 16; i++) __v_assume(ex[i] <= mx);
  for (int i = 0; i < 32; i++) __v_assume((in[i] <= lim) & (in[i] >= -lim - 1));
  __v_cover("pre");
  eval_shapes<i32>(in, std::make_tuple(st),
                   [=](i32 x, int r, int c) {
                     int p = SH == COLS ? c : r;
                     i32 e = ex[p];
                     i32 ls = e > 0 ? e : 0, rs = e < 0 ? -e : 0;
                     return wadd(i32(spec_rdivpot(spec_srdhm(i32(std::uint32_t(x) << ls), m[p]), rs)), off);
                   }, what, FR);
}
OB(scale_exponent_pc_col) { scale_pc<ROWS>(in, "per-row scaling uses the multiplier and exponent of the cell's row"); }
OB(scale_exponent_pc_row) { scale_pc<COLS>(in, "per-column scaling uses the multiplier and exponent of the cell's column"); }
#endif
// stages compose in pipeline order
OB(pipeline_order) {
  const i32* v = in + 64;
  OutputStageBiasAddition<VectorMap<const i32, ROWS>> bias;
  bias.bias_vector = VectorMap<const i32, ROWS>(v, 16);
  OutputStageQuantizeDownInt32ByFixedPoint q;
  q.result_fixedpoint_multiplier = in[40];
  q.result_shift = in[41];
  q.result_offset_after_shift = in[42];
  OutputStageClamp cl;
  cl.min = in[43];
  cl.max = in[44];
  i32 mult = in[40], sh = in[41], off = in[42], lo = in[43], hi = in[44];
  __v_assume(sh >= 0 && sh <= 31 && lo <= hi);
  __v_cover("pre");
  eval_shapes<std::uint8_t>(in, std::make_tuple(bias, q, cl, OutputStageSaturatingCastToUint8()),
                            [=](i32 x, int r, int) {
                              i32 y = wadd(i32(spec_rdivpot(spec_srdhm(wadd(x, v[r]), mult), sh)), off);
                              return std::uint8_t(clampi(clampi(y, lo, hi), 0, 255));
                            },
                            "bias, quantize, clamp and cast compose in order", FR);
}
OB(standard_pipeline) {
  i32 off = in[40], mult = in[41], sh = in[42];
  __v_assume(sh >= 0 && sh <= 31);
  __v_cover("pre");
  eval_shapes<std::uint8_t>(in, MakeStandardOutputPipeline(off, mult, sh),
                            [=](i32 x, int, int) { return std::uint8_t(clampi(i32(spec_rdivpot(wmul(wadd(x, off), mult), sh)), 0, 255)); },
                            "standard output pipeline", FR);
}
template <VectorShape SH>
static inline void standard_pc(const i32* in, const char* what) {
  const i32 *o = in + 64, *m = in + 96;
  i32 sh = in[40];
  __v_assume(sh >= 0 && sh <= 31);
  __v_cover("pre");
  eval_shapes<std::uint8_t>(in, MakeStandardOutputPipeline<SH>(VectorMap<const i32, SH>(o, 16), VectorMap<const i32, SH>(m, 16), sh),
                            [=](i32 x, int r, int c) {
                              int p = SH == COLS ? c : r;
                              return std::uint8_t(clampi(i32(spec_rdivpot(wmul(wadd(x, o[p]), m[p]), sh)), 0, 255));
                            }, what, FR);
}
OB(standard_pipeline_pc_col) { standard_pc<ROWS>(in, "standard per-row output pipeline"); }
OB(standard_pipeline_pc_row) { standard_pc<COLS>(in, "standard per-column output pipeline"); }
OB(pipeline_int16) {
  const i32* v = in + 64;
  OutputStageBiasAddition<VectorMap<const i32, COLS>> bias;
  bias.bias_vector = VectorMap<const i32, COLS>(v, 16);
  OutputStageQuantizeDownInt32ByFixedPoint q;
  i32 mult = q.result_fixedpoint_multiplier = in[40], sh = q.result_shift = in[41], off = q.result_offset_after_shift = in[42];
  __v_assume(sh >= 0 && sh <= 31);
  __v_cover("pre");
  eval_shapes<std::int16_t>(in, std::make_tuple(bias, q, OutputStageSaturatingCastToInt16()),
                            [=](i32 x, int, int c) { return std::int16_t(clampi(wadd(i32(spec_rdivpot(spec_srdhm(wadd(x, v[c]), mult), sh)), off), -32768, 32767)); },
                            "bias per column, quantize and cast to int16 compose in order", FR);
}
