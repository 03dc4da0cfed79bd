// Outer loops of the multiplication, with the block-level operations replaced
// by their contracts.  The loops are the ones in /repo's headers; PackLhs,
// PackRhs, Compute, UnpackResult (and, for the multi-threaded driver,
// SingleThreadGemm and the worker pool) are ghost functions whose contracts
// the verifier checks at every call; each of those contracts is proved for the
// real function by another harness.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstring>
#include <thread>
#include <vector>
#include <tuple>
#include "public/gemmlowp.h"   // everything once, unmodified
#undef GEMMLOWP_INTERNAL_SINGLE_THREAD_GEMM_H_
#undef GEMMLOWP_INTERNAL_MULTI_THREAD_GEMM_H_
#include "v.h"

extern "C" {
void g_alloc(void* a, int what);
void g_psb_init(const void* id, const void* alloc, int side, int l2_rows, int l2_cols, int l2_depth);
void g_res_init(const void* id, const void* alloc, int l2_rows, int l2_cols);
void g_pack(int side, const void* id, int order, const void* data, int rows, int cols, int stride);
void g_compute(const void* kernel, int l2_rows, int l2_cols, int l2_depth, const void* res, const void* lhs,
               const void* rhs, int depth);
void g_unpack(int order, const void* data, int rows, int cols, int stride, int r0, int c0, int rs, int cs,
              const void* res, int depth, const void* lsums, const void* rsums, const void* lo, int losize,
              const void* ro, int rosize, const void* pipeline);
void g_task(int lorder, const void* ldata, int lrows, int lcols, int lstride, const void* prhs, int order,
            const void* data, int rows, int cols, int stride, int r0, int c0, int rs, int cs, const void* lo,
            int losize, const void* ro, int rosize, int l2_rows, int l2_cols, int l2_depth, const void* pipeline,
            const void* kernel);
void g_execute(const void* pool, const void* vec);
void g_push(const void* vec, void* task);
void g_single(const void* ctx, const void* kernel, int lorder, const void* ldata, int lrows, int lcols, int lstride,
              int rorder, const void* rdata, int rrows, int rcols, int rstride, int order, const void* data, int rows,
              int cols, int stride, const void* lo, int losize, const void* ro, int rosize, const void* pipeline);
void g_init(void* bp, int krows, int kcols, int kdepth, int kreg, int rows, int cols, int depth, int threads);
void g_end();
}

namespace gv {
using namespace gemmlowp;

template <typename V> struct Off {};
template <typename S, VectorShape Sh> struct Off<VectorMap<S, Sh>> {
  static const void* data(const VectorMap<S, Sh>& v) { return v.data(); }
};
template <typename S, VectorShape Sh> struct Off<VectorDup<S, Sh>> {
  static const void* data(const VectorDup<S, Sh>& v) {
    const S x = reinterpret_cast<const S&>(v);   // data_ is the first member
    return reinterpret_cast<const void*>(static_cast<std::intptr_t>(x));
  }
};

struct GhostAllocator {
  char c;
  void Commit() { g_alloc(this, 1); }
  void Decommit() { g_alloc(this, 0); }
};

template <typename tFormat>
struct GhostPSB {
  typedef tFormat KernelSideFormat;
  const void* id;
  SideBlockParams params_;
  GhostPSB(Side side, GhostAllocator* a, const BlockParams& bp) {
    id = this;
    GetSideBlockParams(side, &params_, bp);
    g_psb_init(id, a, side == Side::Lhs ? 0 : 1, bp.l2_rows, bp.l2_cols, bp.l2_depth);
  }
  GhostPSB(const GhostPSB& o) : id(o.id), params_(o.params_) {}
  std::int32_t* sums_of_each_slice() { return (std::int32_t*)id; }
  const std::int32_t* sums_of_each_slice() const { return (const std::int32_t*)id; }
  const SideBlockParams& params() const { return params_; }
};
struct GhostPackedResult {
  const void* id;
  GhostPackedResult(GhostAllocator* a, const BlockParams& bp) {
    id = this;
    g_res_init(id, a, bp.l2_rows, bp.l2_cols);
  }
};
template <typename P, typename M> void GhostPackLhs(P* dst, const M& src) {
  g_pack(0, dst->id, (int)M::kOrder, src.data(), src.rows(), src.cols(), src.stride());
}
template <typename P, typename M> void GhostPackRhs(P* dst, const M& src) {
  g_pack(1, dst->id, (int)M::kOrder, src.data(), src.rows(), src.cols(), src.stride());
}
template <typename L, typename R, typename PR>
void GhostCompute(const KernelBase& kernel, const BlockParams& bp, PR* pr, const L& l, const R& r, int depth) {
  g_compute(&kernel, bp.l2_rows, bp.l2_cols, bp.l2_depth, pr->id, l.id, r.id, depth);
}
template <typename KF, typename RB, typename PR, typename LO, typename RO, typename OP>
void GhostUnpackResult(RB* dst, const MatrixBlockBounds& b, const PR& src, int depth, const std::int32_t* ls,
                       const std::int32_t* rs, const LO& lo, const RO& ro, const OP& op) {
  g_unpack((int)RB::kOrder, dst->data(), dst->rows(), dst->cols(), dst->stride(), b.start_row, b.start_col, b.rows,
           b.cols, src.id, depth, ls, rs, Off<LO>::data(lo), lo.size(), Off<RO>::data(ro), ro.size(), &op);
}
// block size selection, through its contract (proved by the C05 harness)
struct GhostBlockParams : BlockParams {
  template <typename KF>
  void Init(int rows, int cols, int depth, int threads, int, int, float) {
    g_init(this, KF::kRows, KF::kCols, KF::kDepth, kRegisterSize, rows, cols, depth, threads);
  }
};
template <typename KF, typename I, typename O, typename BDP, typename Ctx, typename Ker, typename L, typename R,
          typename Res, typename LO, typename RO, typename OP>
void GhostSingleThreadGemm(Ctx* ctx, const Ker& k, const L& l, const R& r, Res* res, const LO& lo, const RO& ro,
                           const OP& op) {
  g_single(ctx, &k, (int)L::kOrder, l.data(), l.rows(), l.cols(), l.stride(), (int)R::kOrder, r.data(), r.rows(),
           r.cols(), r.stride(), (int)Res::kOrder, res->data(), res->rows(), res->cols(), res->stride(),
           Off<LO>::data(lo), lo.size(), Off<RO>::data(ro), ro.size(), &op);
}
}  // namespace gv

namespace std {
template <typename T> struct ghost_vector {
  char c;
  unsigned long n = 0;
  void push_back(T x) { n++; g_push(this, x); }
  unsigned long size() const { return n; }
  void reserve(unsigned long) {}
  T* begin() const { return nullptr; }
  T* end() const { return nullptr; }
  T& operator[](unsigned long i) const { return *(T*)nullptr; }
};
}

namespace gemmlowp_g { using namespace ::gemmlowp; }
// the headers' loops again, in a namespace of their own, over the ghost operations
#define PackLhs ::gv::GhostPackLhs
#define PackRhs ::gv::GhostPackRhs
#define Compute ::gv::GhostCompute
#define UnpackResult ::gv::GhostUnpackResult
#define PackedSideBlock ::gv::GhostPSB
#define PackedResult ::gv::GhostPackedResult
#define Allocator ::gv::GhostAllocator
#define BlockParams ::gv::GhostBlockParams
#define gemmlowp gemmlowp_g
#include "internal/single_thread_gemm.h"
#define SingleThreadGemm ::gv::GhostSingleThreadGemm
#define vector ghost_vector
#include "internal/multi_thread_gemm.h"
#undef vector
#undef SingleThreadGemm
#undef gemmlowp
#undef PackLhs
#undef PackRhs
#undef Compute
#undef UnpackResult
#undef PackedSideBlock
#undef PackedResult
#undef Allocator
#undef BlockParams

namespace gv {
struct GhostPool {
  char c;
  template <typename V> void Execute(const V& tasks) { g_execute(this, &tasks); }
  template <typename V> void LegacyExecuteAndDestroyTasks(const V& tasks) { g_execute(this, &tasks); }
};
struct GhostContext : gemmlowp_g::MultiThreadGemmContextBase {
  GhostPool pool;
  GhostPool* workers_pool() { return &pool; }
};
typedef gemmlowp::DefaultL8R8BitDepthParams BDP;
typedef gemmlowp::DefaultKernel<BDP> Kernel;
typedef std::tuple<> Pipe;
struct PipeObj { Pipe p; };
typedef gemmlowp::VectorMap<const std::int32_t, gemmlowp::VectorShape::Col> LV;
typedef gemmlowp::VectorMap<const std::int32_t, gemmlowp::VectorShape::Row> RV;
typedef gemmlowp::VectorDup<const std::int32_t, gemmlowp::VectorShape::Col> LD;
typedef gemmlowp::VectorDup<const std::int32_t, gemmlowp::VectorShape::Row> RD;
}  // namespace gv

#define ORD(x) ((x) ? gemmlowp::MapOrder::RowMajor : gemmlowp::MapOrder::ColMajor)
template <int L, int R, int D, typename LO, typename RO>
static void run_st(gv::GhostContext* ctx, const std::uint8_t* l, int ls, const std::uint8_t* r, int rs, std::uint8_t* d,
                   int ds, int rows, int cols, int depth, const LO& lo, const RO& ro, const gv::Pipe* pipe,
                   const gemmlowp::KernelBase* k) {
  gemmlowp::MatrixMap<const std::uint8_t, ORD(L)> lhs(l, rows, depth, ls);
  gemmlowp::MatrixMap<const std::uint8_t, ORD(R)> rhs(r, depth, cols, rs);
  gemmlowp::MatrixMap<std::uint8_t, ORD(D)> dst(d, rows, cols, ds);
  gemmlowp_g::SingleThreadGemm<gv::Kernel::Format, std::uint8_t, std::uint8_t, gv::BDP>(ctx, *k, lhs, rhs, &dst, lo, ro,
                                                                                      *pipe);
  g_end();
}
template <int L, int R, int D, typename LO, typename RO>
static void run_mt(gv::GhostContext* ctx, const std::uint8_t* l, int ls, const std::uint8_t* r, int rs, std::uint8_t* d,
                   int ds, int rows, int cols, int depth, const LO& lo, const RO& ro, const gv::Pipe* pipe,
                   const gemmlowp::KernelBase* k, int threads) {
  ctx->set_max_num_threads(threads);
  gemmlowp::MatrixMap<const std::uint8_t, ORD(L)> lhs(l, rows, depth, ls);
  gemmlowp::MatrixMap<const std::uint8_t, ORD(R)> rhs(r, depth, cols, rs);
  gemmlowp::MatrixMap<std::uint8_t, ORD(D)> dst(d, rows, cols, ds);
  gemmlowp_g::MultiThreadGemm<gv::Kernel::Format, std::uint8_t, std::uint8_t, gv::BDP>(ctx, *k, lhs, rhs, &dst, lo, ro,
                                                                                     *pipe);
  g_end();
}
template <int L, int R, int D, typename LO, typename RO>
using TaskT = gemmlowp_g::GemmWithPackedRhsTask<gv::Kernel::Format, std::uint8_t, std::uint8_t, gv::BDP, ORD(L), ORD(R),
                                                ORD(D), LO, RO, gv::Pipe, gv::GhostContext>;
template <int L, int R, int D, typename LO, typename RO>
static void see_task(TaskT<L, R, D, LO, RO>* t) {
  g_task(L, t->lhs.data(), t->lhs.rows(), t->lhs.cols(), t->lhs.stride(), t->packed_rhs.id, D, t->result.data(),
         t->result.rows(), t->result.cols(), t->result.stride(), t->result_block.start_row, t->result_block.start_col,
         t->result_block.rows, t->result_block.cols, gv::Off<LO>::data(t->lhs_offset), t->lhs_offset.size(),
         gv::Off<RO>::data(t->rhs_offset), t->rhs_offset.size(), t->block_params.l2_rows, t->block_params.l2_cols,
         t->block_params.l2_depth, &t->output_pipeline, &t->kernel);
}
template <int L, int R, int D, typename LO, typename RO>
static void run_task(gv::GhostContext* ctx, gv::GhostAllocator* mainalloc, gv::GhostAllocator* al,
                     gv::GhostBlockParams* bp, const std::uint8_t* l, int ls, const std::uint8_t* r, int rs,
                     std::uint8_t* d, int ds, int rows, int cols, int depth, int r0, int c0, int brows, int bcols,
                     const LO& lo, const RO& ro, const gv::Pipe* pipe, const gemmlowp::KernelBase* k) {
  gemmlowp::MatrixMap<const std::uint8_t, ORD(L)> lhs(l, rows, depth, ls);
  gemmlowp::MatrixMap<const std::uint8_t, ORD(R)> rhs(r, depth, cols, rs);
  gemmlowp::MatrixMap<std::uint8_t, ORD(D)> dst(d, rows, cols, ds);
  g_init(bp, gv::Kernel::Format::kRows, gv::Kernel::Format::kCols, gv::Kernel::Format::kDepth, gemmlowp::kRegisterSize, rows, cols, depth, 2);
  __v_assume(bcols <= bp->l2_cols);
  gv::GhostPSB<gv::Kernel::Format::Rhs> prhs(gemmlowp::Side::Rhs, mainalloc, *bp);
  mainalloc->Commit();
  gv::GhostPackRhs(&prhs, rhs.block(0, c0, depth, bcols));
  TaskT<L, R, D, LO, RO> t(ctx, *k, lhs.block(r0, 0, brows, depth), prhs, &dst,
                           gemmlowp::MatrixBlockBounds(r0, c0, brows, bcols), lo, ro, *bp, *pipe);
  t.local_allocator = al;
  t.Run();
  g_end();
}

#define ARGS gv::GhostContext *ctx, const std::uint8_t *l, int ls, const std::uint8_t *r, int rs, std::uint8_t *d, int ds, \
             int rows, int cols, int depth, const std::int32_t *lo, const std::int32_t *ro, int lov, int rov, \
             const gv::Pipe *pipe, const gemmlowp::KernelBase *k, int threads
#define INST(L, R, D)                                                                                          \
  extern "C" void st_v##L##R##D(ARGS) {                                                                        \
    run_st<L, R, D>(ctx, l, ls, r, rs, d, ds, rows, cols, depth, gv::LV(lo, rows), gv::RV(ro, cols), pipe, k);  \
  }                                                                                                            \
  extern "C" void mt_v##L##R##D(ARGS) {                                                                        \
    run_mt<L, R, D>(ctx, l, ls, r, rs, d, ds, rows, cols, depth, gv::LV(lo, rows), gv::RV(ro, cols), pipe, k, threads);  \
  }                                                                                                            \
  extern "C" void see_v##L##R##D(void* t) { see_task<L, R, D, gv::LV, gv::RV>((TaskT<L, R, D, gv::LV, gv::RV>*)t); } \
  extern "C" void tk_v##L##R##D(gv::GhostAllocator* ma, gv::GhostAllocator* al, gv::GhostBlockParams* bp, int r0, int c0, \
                                int br, int bc, ARGS) {                                                        \
    gv::LV lv(lo, rows); gv::RV rv(ro, cols);                                                                  \
    run_task<L, R, D, gv::LV, gv::RV>(ctx, ma, al, bp, l, ls, r, rs, d, ds, rows, cols, depth, r0, c0, br, bc, lv, rv, \
                                      pipe, k);                                                                \
  }                                                                                                            \
  extern "C" void st_d##L##R##D(ARGS) {                                                                        \
    run_st<L, R, D>(ctx, l, ls, r, rs, d, ds, rows, cols, depth, gv::LD(lov, rows), gv::RD(rov, cols), pipe, k); \
  }                                                                                                            \
  extern "C" void mt_d##L##R##D(ARGS) {                                                                        \
    run_mt<L, R, D>(ctx, l, ls, r, rs, d, ds, rows, cols, depth, gv::LD(lov, rows), gv::RD(rov, cols), pipe, k, threads); \
  }                                                                                                            \
  extern "C" void see_d##L##R##D(void* t) { see_task<L, R, D, gv::LD, gv::RD>((TaskT<L, R, D, gv::LD, gv::RD>*)t); }
extern "C" int how_many(int threads, int rows, int cols, int depth) {
  return gemmlowp_g::HowManyThreads<gv::Kernel::Format::kRows>(threads, rows, cols, depth);
}
INST(0, 0, 0)
INST(0, 0, 1)
INST(0, 1, 0)
INST(0, 1, 1)
INST(1, 0, 0)
INST(1, 0, 1)
INST(1, 1, 0)
INST(1, 1, 1)
