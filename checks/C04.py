"""C04: the multi-threaded result equals the single-threaded result."""
from irv import runner, gtasks as G, gsearch
SETS = [(0, "s"), (2, "v")]
MTO = {"x86_default": ["101"], "x86_sse4": ["010"], "x86_avx2": ["000"], "aarch64": ["111"], "armhf": ["011"]}
FUNCS = ["MultiThreadGemm, GemmWithPackedRhsTask::Run, HowManyThreads (internal/multi_thread_gemm.h)",
         "UnpackResult, UnpackResultBlock, UnpackResultBlockImpl for every register block shape, MergeRegisterBlocks, LoadContinuous, LoadForBroadcasting, BroadcastAdd, BroadcastMulAdd, StoreFinalOutput (internal/unpack.h, simd_wrappers*.h, output*.h)",
         "WorkersPool, Worker, BlockingCounter, WaitForVariableChange (internal/multi_thread_gemm.h), as in C07"]
ASSUME = G.GEMM_ASSUME + ["WorkersPool::Execute by the contract the pool tasks of this check prove",
                          "1 to 65536 hardware threads"]


def tasks():
    G.prefetch([("gemm_outer.cc", c, G.OKEEP) for c in G.CF] + [("gemm_unpack.cc", c, G.UKEEP) for c in G.CF])
    q = runner.TIER == "quick"
    t = G.outer("C04", SETS, "mt", "v", ords=lambda c: MTO[c] if q else G.ALLO)
    t += G.outer("C04", SETS, "mt", "d", ords=lambda c: [] if q and c != "x86_sse4" else ["101"] if q else G.ALLO)
    t += G.outer("C04", SETS, "tk", "v")
    t += G.unpack("C04", SETS, "v", want="global|exactly once|place", flip=1)
    t += G.simple("howmany", G.t_howmany, "C04", SETS)
    from . import C07
    t += C07.proofs()
    t += gsearch.tasks("C04", SETS, 12 if q else 120, G.CF)
    return t


def main():
    return runner.run_check("C04", tasks(), FUNCS, ASSUME)
