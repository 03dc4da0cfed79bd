// Register-block packing: MakeCompleteSrc and Pack of the real PackingRegisterBlock, for the default kernel's formats.
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"
#include "v.h"
using namespace gemmlowp;
extern "C" {
void g_src(const void* data, int width, int depth, int stride);
void g_built(void*);
void g_end(void* pos);
}
// operands whose products stay below 4096 (selects the 12-bit kernel where there is one)
typedef gemmlowp::BitDepthParams<gemmlowp::OperandRange<0, 128>, gemmlowp::OperandRange<0, 31> > L7R5;
#ifndef BDP
#define BDP DefaultL8R8BitDepthParams
#endif
#ifndef SRC
#define SRC std::uint8_t
#endif
typedef DefaultKernel<BDP> K;
template <int S> struct SF { typedef K::Format::Lhs F; };
template <> struct SF<1> { typedef K::Format::Rhs F; };
template <int S> struct Psb { typedef PackedSideBlock<typename SF<S>::F> T; };
template <int S, SideMapOrder O> struct Prb {
  typedef SideMap<const SRC, O> Map;
  struct T : PackingRegisterBlock<Map, typename Psb<S>::T> { const Map& c() const { return this->complete_src_; } };
};
template <int S, SideMapOrder O> static void mk(const SRC* src, int ws, int ds, int stride) {
  typename Prb<S, O>::Map m(src, ws, ds, stride);
  typename Prb<S, O>::T b;
  b.MakeCompleteSrc(m);
  g_src(b.c().data(), b.c().width(), b.c().depth(), b.c().stride());
}
template <int S, SideMapOrder O> static void ip(const SRC* src, int ws, int ds, int stride) {
  typename Prb<S, O>::Map m(src, ws, ds, stride);
  typename Prb<S, O>::T b;
  b.UseCompleteSrcInPlace(m);
  g_src(b.c().data(), b.c().width(), b.c().depth(), b.c().stride());
}
template <int S, SideMapOrder O> static void pk(const SRC* src, int stride, int sw, int n, Allocator* a) {
  BlockParams bp;
  bp.l1_rows = bp.l2_rows = K::Format::kRows; bp.l1_cols = bp.l2_cols = K::Format::kCols; bp.l1_depth = bp.l2_depth = kRegisterSize;
  typename Psb<S>::T p(S ? Side::Rhs : Side::Lhs, a, bp);
  p.seek_forward_n_cells(n);
  typename Prb<S, O>::Map m(src, SF<S>::F::kWidth, kRegisterSize, stride);
  typename Prb<S, O>::T b;
  b.UseCompleteSrcInPlace(m);
  g_built(&p);
  b.Pack(&p, sw);
  g_end(p.current_data());
}
#define INST(S, O, N) \
  extern "C" void mk_##S##N(const SRC* src, int ws, int ds, int stride) { mk<S, O>(src, ws, ds, stride); } \
  extern "C" void ip_##S##N(const SRC* src, int ws, int ds, int stride) { ip<S, O>(src, ws, ds, stride); } \
  extern "C" void pk_##S##N(const SRC* src, int stride, int sw, int n, Allocator* a) { pk<S, O>(src, stride, sw, n, a); }
INST(0, SideMapOrder::WidthMajor, w)
INST(1, SideMapOrder::WidthMajor, w)
#ifndef WIDTH_MAJOR_ONLY
INST(0, SideMapOrder::DepthMajor, d)
INST(1, SideMapOrder::DepthMajor, d)
#endif
#define CON(S) \
  extern "C" int cw_##S() { return SF<S>::F::Cell::kWidth; } \
  extern "C" int cd_##S() { return SF<S>::F::Cell::kDepth; } \
  extern "C" int cn_##S() { return SF<S>::F::kCells; } \
  extern "C" int co_##S() { return (int)SF<S>::F::Cell::kOrder; } \
  extern "C" int zp_##S() { return ZeroPointInputValue<SF<S>::F::InputScalar, SF<S>::F::Scalar>::kValue; }
CON(0)
CON(1)
extern "C" int k_rs() { return kRegisterSize; }
