// Register-block unpacking: UnpackResultBlock (accumulators, sums and offsets of one register block) and the 8x8 store.
#include "public/gemmlowp.h"
#include "v.h"
using namespace gemmlowp;
extern "C" void g_end();
// operands whose products stay below 4096 (selects the 12-bit kernel where there is one)
typedef gemmlowp::BitDepthParams<gemmlowp::OperandRange<0, 128>, gemmlowp::OperandRange<0, 31> > L7R5;
#ifndef BDP
#define BDP DefaultL8R8BitDepthParams
#endif
typedef DefaultKernel<BDP> K;
typedef std::int32_t i32;
typedef VectorMap<const i32, VectorShape::Col> LV;
typedef VectorMap<const i32, VectorShape::Row> RV;
typedef VectorDup<const i32, VectorShape::Col> LD;
typedef VectorDup<const i32, VectorShape::Row> RD;
template <int R, int C, MapOrder O, typename LO, typename RO, typename Pipe>
static void lu(const Pipe& pipe, const i32* packed, int l2r, int l2c, const i32* ls, const i32* rs, const LO& lo, const RO& ro, int depth, int srow,
               int scol, i32* d, int rows, int cols, int ds, int grow, int gcol, int drow, int dcol) {
  typedef RegisterBlock<i32, R, C> Block;
  MatrixMap<const i32, MapOrder::ColMajor> src(packed, l2r, l2c, l2r);
  LV lsums(ls, l2r); RV rsums(rs, l2c);
  OutputPipelineExecutor<Pipe, Block> ex(pipe);
  MatrixMap<i32, O> dst(d, rows, cols, ds);
  UnpackResultBlock<typename K::Format, Block>(src, ex, &dst, lsums, rsums, lo, ro, depth, srow, scol, grow, gcol, drow, dcol);
  g_end();
}
#define ARGS const i32 *packed, int l2r, int l2c, const i32 *ls, const i32 *rs, const i32 *lo, const i32 *ro, int lov, int rov, int depth, \
  int srow, int scol, i32 *d, int rows, int cols, int ds, int grow, int gcol, int drow, int dcol, const i32 *rb, const i32 *cb, int nb
typedef std::tuple<OutputStageBiasAddition<LV>, OutputStageBiasAddition<RV>> Biases;
static inline Biases biases(const i32* rb, const i32* cb, int nb) {
  Biases b; std::get<0>(b).bias_vector = LV(rb, nb); std::get<1>(b).bias_vector = RV(cb, nb); return b;
}
#define IN1(R, C, O, ON, N, L, RR) IN0(R, C, O, ON, N, L, RR, std::tuple<>())
#define IN0(R, C, O, ON, N, L, RR, PP) extern "C" void lu_##R##x##C##ON##N(ARGS) { \
  lu<R, C, O>(PP, packed, l2r, l2c, ls, rs, L, RR, depth, srow, scol, d, rows, cols, ds, grow, gcol, drow, dcol); }
#define IN2(R, C, O, ON) IN1(R, C, O, ON, vv, LV(lo, l2r), RV(ro, l2c)) IN1(R, C, O, ON, dd, LD(lov, l2r), RD(rov, l2c)) \
  IN1(R, C, O, ON, vd, LV(lo, l2r), RD(rov, l2c)) IN1(R, C, O, ON, dv, LD(lov, l2r), RV(ro, l2c)) \
  IN0(R, C, O, ON, ddb, LD(lov, l2r), RD(rov, l2c), biases(rb, cb, nb))
#define IN3(R, C) IN2(R, C, MapOrder::ColMajor, c) IN2(R, C, MapOrder::RowMajor, r)
IN3(1, 1) IN3(4, 1) IN3(8, 1) IN3(1, 4) IN3(4, 4) IN3(8, 4)
template <typename T> static void sf(const T* buf, T* d, int rows, int cols, int ds, int drow, int dcol) {
  MatrixMap<T, MapOrder::RowMajor> dst(d, rows, cols, ds);
  StoreFinalOutput(LoadContiguous<RegisterBlock<T, 8, 8>>(buf), &dst, drow, dcol);
  g_end();
}
#define SF(T, N) extern "C" void sf_##N(const T* buf, T* d, int rows, int cols, int ds, int drow, int dcol) { sf<T>(buf, d, rows, cols, ds, drow, dcol); }
SF(std::uint8_t, u8) SF(std::int16_t, i16) SF(i32, i32)
#if !defined(GEMMLOWP_SSE4)
SF(std::int8_t, i8)
#endif
extern "C" int zp_0() { return ZeroPointInputValue<K::Format::Lhs::InputScalar, K::Format::Lhs::Scalar>::kValue; }
extern "C" int zp_1() { return ZeroPointInputValue<K::Format::Rhs::InputScalar, K::Format::Rhs::Scalar>::kValue; }
