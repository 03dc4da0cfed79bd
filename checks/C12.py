"""C12: the EightBitIntGemm interface computes the caller's product whatever was called before."""
import os
from irv import runner, build, gtasks as G, gsearch
from irv.gebi import KEEP
SRCS = ["ebi_search.cc", os.path.join(build.REPO, "eight_bit_int_gemm", "eight_bit_int_gemm.cc")]
FUNCS = ["EightBitIntGemm (uint8 and float results), EightBitIntGemmImpl, EightBitIntGemmInt32Impl, Scratch::AssureSize, GetOrCreateGlobalContext, "
         "GetOrCreateGlobalScratch, SetMaxNumThreads, FreePersistentResources (eight_bit_int_gemm/eight_bit_int_gemm.cc)"]
ASSUME = ["Gemm and GemmWithOutputPipeline by their contracts (decided by C01, C03, C06)",
          "float variant: major dimension times ldc below 2^29 elements (the scratch size is a 32-bit byte count)",
          "float conversion and multiplication are uninterpreted: the stored value is the term float(accumulator) * c_offset",
          "GemmContext's constructor and destructor are external; operator new returns fresh memory",
          "the GEMMLOWP_USE_META_FASTPATH variant is not covered"]


def t_ebi(config, what):
    from irv import gebi
    return G.pack(*gebi.run_ebi(config, what))


def tasks():
    G.prefetch([("gemm_ebi.cc", c, KEEP) for c in G.CF])
    q = runner.TIER == "quick"
    mk, wit = gsearch.generic("ebi_search", SRCS)
    out = []
    for c in G.CF:
        for what in ("u8", "f", "state"):
            t = runner.Task("%s/%s" % (what, c), t_ebi, timeout=400, weight=3 if what == "f" else 0.3, config=c, what=what, witness=wit("C12"))
            t.wkey = "w/" + c
            out.append(t)
    return out + mk("C12", 10 if q else 120, G.CF)


def main():
    return runner.run_check("C12", tasks(), FUNCS, ASSUME)
