// The real kernels, called directly: Run accumulates the products of one run of packed cells into the result block.
#include "public/gemmlowp.h"
#include "internal/kernel_reference.h"
#include "v.h"
using namespace gemmlowp;
extern "C" void g_end();
// operands whose products stay below 4096 (selects the 12-bit kernel where there is one)
typedef gemmlowp::BitDepthParams<gemmlowp::OperandRange<0, 128>, gemmlowp::OperandRange<0, 31> > L7R5;
#ifndef BDP
#define BDP DefaultL8R8BitDepthParams
#endif
#ifndef KERNEL
#define KERNEL DefaultKernel<BDP>
#endif
typedef KERNEL K;
extern "C" void kr(std::int32_t* dst, std::size_t cs, const std::uint8_t* lhs, const std::uint8_t* rhs, std::size_t sd, std::size_t rd) {
  K k;
  k.K::Run(dst, 1, cs, lhs, rhs, sd, rd);
  g_end();
}
#define CON(S, X) \
  extern "C" int cw_##S() { return K::Format::X::Cell::kWidth; } \
  extern "C" int cd_##S() { return K::Format::X::Cell::kDepth; } \
  extern "C" int cn_##S() { return K::Format::X::kCells; } \
  extern "C" int co_##S() { return (int)K::Format::X::Cell::kOrder; } \
  extern "C" int zp_##S() { return ZeroPointInputValue<K::Format::X::InputScalar, K::Format::X::Scalar>::kValue; }
CON(0, Lhs)
CON(1, Rhs)
extern "C" int k_rs() { return kRegisterSize; }
extern "C" int k_depth() { return K::Format::kDepth; }
extern "C" int k_sg() { return ((typename K::Format::Lhs::Scalar)-1) < 0; }
extern "C" int k_dm() { return (int)CellOrder::DepthMajor; }
extern "C" int k_wm() { return (int)CellOrder::WidthMajor; }
