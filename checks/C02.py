"""C02: per-row and per-column offsets apply to their own row and column."""
from irv import runner, gtasks as G, gsearch
SETS = [(0, "v"), (2, "v"), (5, "v")]
FUNCS = ["Gemm, GemmWithOutputPipeline, GemmWithOutputPipelinePC (public/gemmlowp.h); DispatchGemmShape, TransposeTuple, Transpose of maps and stages (internal/dispatch_gemm_shape.h)",
         "SingleThreadGemm (internal/single_thread_gemm.h); MultiThreadGemm, GemmWithPackedRhsTask::Run (internal/multi_thread_gemm.h)",
         "UnpackResult, UnpackResultBlock, UnpackResultBlockImpl for every register block shape, MergeRegisterBlocks, LoadContinuous, LoadForBroadcasting, BroadcastAdd, BroadcastMulAdd, StoreFinalOutput (internal/unpack.h, simd_wrappers*.h, output*.h)"]
ASSUME = G.GEMM_ASSUME + []


def tasks():
    G.prefetch([("gemm_outer.cc", c, G.OKEEP) for c in G.CF] + [("gemm_unpack.cc", c, G.UKEEP) for c in G.CF])
    t = G.outer("C02", SETS, "st", "v")
    t += G.outer("C02", SETS, "tk", "v", want="offset|exactly once|sums")
    t += G.outer("C02", SETS, "mt", "v", want="offset", configs=["x86_default"], ords=lambda c: ["101"])
    t += G.unpack("C02", SETS, "v", want="offset|exactly once|sums|global", flip=1)
    t += G.leafu("C02", SETS, want="offset terms|own entries")
    t += G.dispatch("C02", SETS)
    t += gsearch.tasks("C02", SETS, 10 if runner.TIER == "quick" else 120, G.CF)
    return t


def main():
    return runner.run_check("C02", tasks(), FUNCS, ASSUME)
