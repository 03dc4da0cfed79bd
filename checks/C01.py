"""C01: GEMM computes the exact integer matrix product."""
from irv import runner, gtasks as G, gsearch, bparams
SETS = [(0, "s"), (1, "s"), (0, "l"), (0, "i"), (0, "t")]
FUNCS = ["Gemm, GemmWithOutputPipeline, GemmWithOutputPipelinePC (public/gemmlowp.h); DispatchGemmShape, TransposeTuple, Transpose of maps and stages (internal/dispatch_gemm_shape.h)",
         "SingleThreadGemm (internal/single_thread_gemm.h); MultiThreadGemm, GemmWithPackedRhsTask::Run (internal/multi_thread_gemm.h)",
         "PackLhs, PackRhs, PackSideBlockImpl::{PackL2,PackL1,PackRun,PrefetchL1}, PackingRegisterBlock{Base,}::{UseCompleteSrcInPlace,MakeCompleteSrc,Pack} (internal/pack.h, pack_sse.h, pack_avx.h, pack_neon.h)",
         "Compute, ComputeImpl::{Compute,ComputeL1,ComputeRun} (internal/compute.h); PackedSideBlock, PackedResult (internal/pack.h, internal/unpack.h)",
         "ReferenceKernel::Run, SSE4_64_Kernel12x4Depth2::Run, AVX2_64_Kernel24x8Depth2::Run, NEON_64 and NEON_32 default, Lhs-nonzero, int8, 12-bit-product and dot-product kernels::Run (internal/kernel_{reference,sse,avx,neon}.h)",
         "UnpackResult, UnpackResultBlock, UnpackResultBlockImpl for every register block shape, MergeRegisterBlocks, LoadContinuous, LoadForBroadcasting, BroadcastAdd, BroadcastMulAdd, StoreFinalOutput (internal/unpack.h, simd_wrappers*.h, output*.h)",
         "BlockParams::Init (internal/block_params.h), by the contract proved here and in C05"]
ASSUME = G.GEMM_ASSUME + []


def tasks():
    G.prefetch([("gemm_outer.cc", c, G.OKEEP) for c in G.CF] + [("gemm_unpack.cc", c, G.UKEEP) for c in G.CF] + [("block_params.cc", c, bparams.KEEP) for c in G.CF]
               + [("gemm_pack.cc", c, G.PKEEP) for c in G.CF] + [("gemm_compute.cc", c, G.CKEEP) for c in G.CF])
    t = G.outer("C01", SETS, "st", "d")
    t += G.outer("C01", SETS, "tk", "v", ords=lambda c: G.orders(c, "v")[:1])
    t += G.outer("C01", SETS, "mt", "v", configs=["x86_default"], ords=lambda c: ["101"])
    t += G.simple("init_default", G.t_init, "C05", SETS, fmt="default")
    t += G.packs("C01", SETS)
    t += G.leaves("C01", SETS)
    t += G.computes("C01", SETS)
    t += G.unpack("C01", SETS, "d")
    t += G.leafu("C01", SETS)
    t += G.kernels("C01", SETS)
    t += G.dispatch("C01", SETS, configs=G.CF)
    t += gsearch.tasks("C01", SETS, 12 if runner.TIER == "quick" else 120, G.CF)
    return t


def main():
    return runner.run_check("C01", tasks(), FUNCS, ASSUME)
