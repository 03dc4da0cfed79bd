"""C03: only the result entries are written, only operand entries are read."""
from irv import runner, gtasks as G, gsearch
SETS = [(0, "s"), (1, "s"), (4, "s")]
WANT = "inside|fits|pointer|view|in-bounds|negative|covers the block|was packed|once|strides|orders"
FUNCS = ["Gemm, GemmWithOutputPipeline, GemmWithOutputPipelinePC (public/gemmlowp.h); DispatchGemmShape, TransposeTuple, Transpose of maps and stages (internal/dispatch_gemm_shape.h)",
         "SingleThreadGemm (internal/single_thread_gemm.h)",
         "PackLhs, PackRhs, PackSideBlockImpl::{PackL2,PackL1,PackRun,PrefetchL1}, PackingRegisterBlock{Base,}::{UseCompleteSrcInPlace,MakeCompleteSrc,Pack} (internal/pack.h, pack_sse.h, pack_avx.h, pack_neon.h)",
         "Compute, ComputeImpl::{Compute,ComputeL1,ComputeRun} (internal/compute.h); PackedSideBlock, PackedResult (internal/pack.h, internal/unpack.h)",
         "ReferenceKernel::Run, SSE4_64_Kernel12x4Depth2::Run, AVX2_64_Kernel24x8Depth2::Run, NEON_64 and NEON_32 default, Lhs-nonzero, int8, 12-bit-product and dot-product kernels::Run (internal/kernel_{reference,sse,avx,neon}.h)",
         "UnpackResult, UnpackResultBlock, UnpackResultBlockImpl for every register block shape, MergeRegisterBlocks, LoadContinuous, LoadForBroadcasting, BroadcastAdd, BroadcastMulAdd, StoreFinalOutput (internal/unpack.h, simd_wrappers*.h, output*.h)"]
ASSUME = G.GEMM_ASSUME + ["the AVX2 kernel loads 8 bytes past the last packed rhs cell (inside the scratch arena, value unused)"]


def tasks():
    G.prefetch([("gemm_outer.cc", c, G.OKEEP) for c in G.CF] + [("gemm_unpack.cc", c, G.UKEEP) for c in G.CF]
               + [("gemm_pack.cc", c, G.PKEEP) for c in G.CF] + [("gemm_compute.cc", c, G.CKEEP) for c in G.CF])
    t = G.outer("C03", SETS, "st", "d", want=WANT)
    t += G.packs("C03", SETS, want="inside|source|in place|reserved|layout|clearing|exactly once", flip=True)
    t += G.leaves("C03", SETS, want="read|written|touched|completed|in-place")
    t += G.computes("C03", SETS, want="inside|layout|reserved|beyond")
    t += G.unpack("C03", SETS, "d", want="place|exactly once|view|fits|holds|filled", flip=1)
    t += G.leafu("C03", SETS, want="written|read|8x8")
    t += G.kernels("C03", SETS, want="kernel reads only|writes exactly|does not write|own entries|not written")
    t += G.dispatch("C03", SETS, want="empty product|asked for")
    t += gsearch.tasks("C03", SETS, 10 if runner.TIER == "quick" else 120, G.CF)
    return t


def main():
    return runner.run_check("C03", tasks(), FUNCS, ASSUME)
