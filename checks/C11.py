"""C11: the scratch allocator hands out aligned, disjoint, live blocks in every commit cycle, after any history."""
from irv import runner, gtasks as G, gsearch
from irv.galloc import KEEP
FUNCS = ["Allocator::Reserve, Commit, GetPointer, Decommit, DeallocateStorage, constructor and destructor (internal/allocator.h)",
         "RoundUp<kAlignment>, RoundUpToPowerOfTwo (internal/common.h)", "aligned_alloc wrapper (internal/platform.h)"]
ASSUME = ["posix_memalign returns a fresh object of the requested size and alignment (or the Commit aborts through its release assertion); free releases it",
          "block sizes up to 2^40 bytes (64-bit targets) or 2^27 bytes (32-bit targets) and 1 to 5 blocks (kMaxBlocks) per cycle, so sizes do not wrap",
          "the storage an earlier history leaves is what at most two earlier cycles leave: Commit either keeps the storage or replaces it altogether (induction over cycles; each cycle's sizes are universally quantified)",
          "the caller uses the documented protocol (Reserve* Commit GetPointer* Decommit); the assertions that police it are compiled out by NDEBUG"]


def t_pow2(config):
    from irv import galloc
    return G.pack(*galloc.run_pow2(config))


def t_alloc(config):
    from irv import galloc
    return G.pack(*galloc.run_alloc(config))


def tasks():
    G.prefetch([("alloc.cc", c, KEEP) for c in G.CF])
    q = runner.TIER == "quick"
    mk, wit = gsearch.generic("alloc_search", ["alloc_search.cc"], "-Wl,--wrap=posix_memalign,--wrap=free,--wrap=malloc,--wrap=aligned_alloc,--wrap=memalign")
    out = []
    for c in G.CF:
        for n, f in (("RoundUpToPowerOfTwo", t_pow2), ("cycle", t_alloc)):
            t = runner.Task("%s/%s" % (n, c), f, timeout=300, weight=1, config=c, witness=wit("C11"))
            t.wkey = "w/" + c
            out.append(t)
    return out + mk("C11", 5 if q else 60, G.CF)


def main():
    return runner.run_check("C11", tasks(), FUNCS, ASSUME)
