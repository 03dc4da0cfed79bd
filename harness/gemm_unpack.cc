// UnpackResult's loops.  UnpackResultBlock, LoadContiguous and StoreFinalOutput
// are used through their contracts (proved by the leaf harness).
#include "public/gemmlowp.h"
#include "v.h"
extern "C" void g_end();
namespace gv {
using namespace gemmlowp;
struct GhostResult {
  const std::int32_t* data; int l2_rows, l2_cols;
  MatrixMap<const std::int32_t, MapOrder::ColMajor> Map() const {
    return MatrixMap<const std::int32_t, MapOrder::ColMajor>(data, l2_rows, l2_cols, l2_rows);
  }
};
typedef DefaultKernel<DefaultL8R8BitDepthParams> Kernel;
typedef std::tuple<OutputStageQuantizeDownInt32ToUint8Scale, OutputStageSaturatingCastToUint8> Pipe;
typedef VectorMap<const std::int32_t, VectorShape::Col> LV;
typedef VectorMap<const std::int32_t, VectorShape::Row> RV;
typedef VectorDup<const std::int32_t, VectorShape::Col> LD;
typedef VectorDup<const std::int32_t, VectorShape::Row> RD;
template <int D, typename LO, typename RO>
static void run(std::uint8_t* d, int rows, int cols, int ds, int r0, int c0, int br, int bc, const std::int32_t* packed, int l2r,
                int l2c, int depth, const std::int32_t* ls, const std::int32_t* rs, const LO& lo, const RO& ro, const Pipe* pipe) {
  GhostResult g; g.data = packed; g.l2_rows = l2r; g.l2_cols = l2c;
  MatrixMap<std::uint8_t, D ? MapOrder::RowMajor : MapOrder::ColMajor> dst(d, rows, cols, ds);
  UnpackResult<Kernel::Format>(&dst, MatrixBlockBounds(r0, c0, br, bc), g, depth, ls, rs, lo, ro, *pipe);
  g_end();
}
}  // namespace gv
#define ARGS std::uint8_t *d, int rows, int cols, int ds, int r0, int c0, int br, int bc, const std::int32_t *packed, int l2r, \
  int l2c, int depth, const std::int32_t *ls, const std::int32_t *rs, const std::int32_t *lo, const std::int32_t *ro, \
  int lov, int rov, const gv::Pipe *pipe
#define INST(D) \
  extern "C" void up_v##D(ARGS) { gv::run<D>(d, rows, cols, ds, r0, c0, br, bc, packed, l2r, l2c, depth, ls, rs, gv::LV(lo, br), gv::RV(ro, bc), pipe); } \
  extern "C" void up_d##D(ARGS) { gv::run<D>(d, rows, cols, ds, r0, c0, br, bc, packed, l2r, l2c, depth, ls, rs, gv::LD(lov, br), gv::RD(rov, bc), pipe); }
INST(0)
INST(1)
