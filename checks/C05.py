"""C05: block sizes are legal for every problem size and cache size."""
from irv import runner, gtasks as G, gsearch, bparams
SETS = [(0, "s"), (1, "v")]
FUNCS = ["BlockParams::Init, FindL2BlockSizes, FindL1BlockSizes, GetSideBlockParams (internal/block_params.h)",
         "RoundUp, CeilQuotient (internal/common.h)"]
ASSUME = ["rows, cols, depth <= 2^29; |l1_bytes|, |l2_bytes| <= 2^30; factor * bytes within +-2^30; products of block sizes fit an int",
          "float arithmetic of the rhs factor: any value of the product within the range above (monotonicity is not needed)",
          "RoundUp and CeilQuotient by the contracts proved in the helper tasks; sysconf reports 1 to 65536 processors"]


def tasks():
    G.prefetch([("gemm_outer.cc", c, G.OKEEP) for c in G.CF] + [("block_params.cc", c, bparams.KEEP) for c in G.CF])
    q = runner.TIER == "quick"
    t = []
    for f in ("default", "nonzero", "odd"):
        t += [x for x in G.simple("init_" + f, G.t_init, "C05", SETS, fmt=f)]
    t += G.simple("side", G.t_side, "C05", SETS) + G.simple("helpers", G.t_helpers, "C05", SETS)
    t += G.outer("C05", SETS, "st", "d", want="fits|once|inside|packed|Init|block param", ords=lambda c: ["101"] if q else G.ALLO)
    mk, wit = gsearch.generic("bp_search", ["bp_search.cc"])
    for x in t:
        if x.id.startswith(("init", "helpers")):
            x.witness = wit("C05", 10)
            x.wkey = "b/" + x.kw["config"]
    t += mk("C05", 4 if q else 60, G.CF)
    t += gsearch.tasks("C05", SETS, 12 if q else 120, G.CF)
    return t


def main():
    return runner.run_check("C05", tasks(), FUNCS, ASSUME)
