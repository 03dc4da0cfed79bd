"""Proof tasks of the GEMM properties C01..C05 and their attribution to properties."""
import re
from . import build, gsearch
from .gemm import KEEP as OKEEP
from .gunpack import KEEP as UKEEP
from .gpack import KEEP as PKEEP
from .gcompute import KEEP as CKEEP
from .runner import Task, TIER, ob_dict

CF = ["x86_default", "x86_sse4", "x86_avx2", "aarch64", "armhf"]
ALLO = ["000", "001", "010", "011", "100", "101", "110", "111"]
# quick tier: every storage order of lhs/rhs/result is verified on some instruction set (the blocking code is the same
# template for all of them); the thorough tier verifies all orders on all of them
QO = {"x86_default": ["000", "111"], "x86_sse4": ["010", "101"], "x86_avx2": ["011"], "aarch64": ["100", "110"], "armhf": ["001", "101"]}
QOV = {"x86_default": ["101"], "x86_sse4": ["011", "000"], "x86_avx2": ["110"], "aarch64": ["001", "010"], "armhf": ["100", "111"]}


GEMM_ASSUME = [
    "matrices span less than 2^31 elements, rows <= 2^31 - 65, trip counts below 2^31; address arithmetic does not wrap",
    "each callee kept out of line is used through the contract that the named tasks of this or another check prove (Allocator: C11, WorkersPool: C07, BlockParams: C05)",
    "macro renaming of callees in the harness translation units is the only change to the verified text; IR is clang's, after inlining and scalar promotion",
    "intrinsic and inline-assembly instruction semantics as modelled in irv/intrin.py and irv/kasm.py",
    "partial correctness: termination is not proved"]


def orders(c, kind):
    return ALLO if TIER == "thorough" else (QOV if kind == "v" else QO)[c]


def pack(en, rets, want=None):
    """engine -> task result; want: regex of the obligation names that belong to the property"""
    rx = re.compile(want) if want else None
    ob = [ob_dict(o) for o in en.obls if rx is None or rx.search(o.name)]
    r = {"obls": ob, "paths": len(rets), "covers": sorted(x for x in en.reached if x.startswith("cover:")), "steps": en.steps}
    if "cover:end" not in en.reached and all(o["status"] == "discharged" for o in ob):
        r["error"] = "vacuous: no path reaches the end"
    return r


def t_outer(config, what, kind, order, want=None):
    from . import gemm
    return pack(*gemm.run_outer(config, what, kind, [int(c) for c in order]), want=want)


def t_unpack(config, kind, order, want=None):
    from . import gunpack
    return pack(*gunpack.run_unpack(config, kind, order), want=want)


def t_pack(config, side, order, want=None):
    from . import gpack
    return pack(*gpack.run_pack(config, side, order), want=want)


def t_compute(config, want=None):
    from . import gcompute
    return pack(*gcompute.run_compute(config), want=want)


def t_leaf(config, what, side, order, bdp=None, src=None, want=None):
    from . import gleaf
    return pack(*getattr(gleaf, what)(config, side, order, bdp, src), want=want)


def t_leafu(config, bdp=None, want=None):
    from . import gleafu
    return pack(*gleafu.run_leafu(config, bdp), want=want)


def t_kernel(config, bdp=None, kernel=None, swap=False, want=None):
    from . import gkernel
    # operand ranges of the 12-bit kernel: products below 4096 (transposed: the ranges change sides)
    rng = {"lhs": 31 if swap else 128, "rhs": 128 if swap else 31} if bdp == L7R5 else None
    return pack(*gkernel.run_kernel(config, bdp, kernel, swap, rng=rng), want=want)


def t_dispatch(config, want=None):
    from . import gdispatch
    en, rets = gdispatch.run_dispatch(config)
    r = pack(en, rets, want=want)
    if not {"cover:end", "cover:skip", "cover:call"} <= en.reached and "error" not in r and all(o["status"] == "discharged" for o in r["obls"]):
        r["error"] = "vacuous: skipping or calling the driver is never reached"
    return r


def t_layout(config=None):
    from . import glayout
    return pack(*glayout.run_layout())


def t_howmany(config):
    from . import gemm
    return pack(*gemm.run_howmany(config))


def t_init(config, fmt):
    from . import bparams
    return pack(*bparams.run_init(config, fmt))


def t_side(config):
    from . import bparams
    return pack(*bparams.run_side(config))


def t_helpers(config):
    from . import bparams
    return pack(*bparams.run_helpers(config))


def prefetch(items):
    """emit the IR of several harnesses in parallel: (harness, config, keep)"""
    from concurrent.futures import ThreadPoolExecutor

    def one(x):
        try:
            build.emit_ir(x[0], x[1], keep=x[2])
        except Exception:
            pass
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, items))


def outer(mode, sets, what, kind, want=None, configs=CF, ords=None):
    out = []
    for c in configs:
        for o in (ords(c) if ords else orders(c, kind)):
            t = Task("outer/%s/%s_%s%s" % (c, what, kind, o), t_outer, timeout=400, weight={"mt": 4, "st": 2}.get(what, 1), config=c, what=what,
                     kind=kind, order=o, want=want, witness=gsearch.witness_for(mode, sets))
            t.wkey = "w/" + c
            out.append(t)
    return out


PQ = {"x86_default": ["00"], "x86_sse4": ["01"], "x86_avx2": ["11"], "aarch64": ["10"], "armhf": ["00"]}


def packs(mode, sets, want=None, flip=False):
    """PackLhs/PackRhs loops: side, source order; quick tier: one combination per instruction set, all combinations covered"""
    out = []
    for c in CF:
        for so in (["00", "01", "10", "11"] if TIER == "thorough" else PQ[c]):
            if flip and TIER != "thorough":
                so = {"00": "11", "01": "10", "10": "01", "11": "00"}[so]
            t = Task("pack/%s/%s" % (c, so), t_pack, timeout=500, weight=6, config=c, side=int(so[0]), order=int(so[1]), want=want,
                     witness=gsearch.witness_for(mode, sets))
            t.wkey = "w/" + c
            out.append(t)
    return out


def computes(mode, sets, want=None, configs=CF):
    out = [Task("layout", t_layout, timeout=60)]
    for c in configs:
        t = Task("compute/%s" % c, t_compute, timeout=400, weight=3, config=c, want=want, witness=gsearch.witness_for(mode, sets))
        t.wkey = "w/" + c
        out.append(t)
    return out


L7R5 = "L7R5"      # product below 4096: BitDepthParams<OperandRange<0, 128>, OperandRange<0, 31>>, typedef in the harness
LNZ, SLNZ = "L8R8WithLhsNonzeroBitDepthParams", "SignedL8R8WithLhsNonzeroBitDepthParams"


def leaves(mode, sets, want=None):
    """packing of one register block: every kernel format, side and source order, bit-precisely"""
    out = []
    for c in CF:
        fm = [(None, None, "wd")] + ([(LNZ, None, "wd"), (SLNZ, "std::int8_t", "w")] if c in ("aarch64", "armhf") else []) + ([(L7R5, None, "wd")] if c == "armhf" else [])
        for bdp, src, os_ in fm:
            for what in ("run_make", "run_pack"):
                for side in (0, 1):
                    for o in os_:
                        t = Task("leaf/%s/%s%s/%d%s" % (c, what[4:], {None: "", LNZ: "-lnz", SLNZ: "-int8", L7R5: "-12bit"}[bdp], side, o), t_leaf, timeout=200,
                                 weight=2 if c == "x86_avx2" and what == "run_make" and not side else 0.3, config=c, what=what, side=side, order=o,
                                 bdp=bdp, src=src, want=want, witness=gsearch.witness_for(mode, sets))
                        t.wkey = "w/" + c
                        out.append(t)
    return out


def leafu(mode, sets, want=None):
    """unpacking of one register block: every shape, result order and offset kind"""
    out = []
    for c in CF:
        for bdp in [None] + ([LNZ, SLNZ] if c in ("aarch64", "armhf") else []) + ([L7R5] if c == "armhf" else []):
            t = Task("leaf/%s/unpack%s" % (c, {None: "", LNZ: "-lnz", SLNZ: "-int8", L7R5: "-12bit"}[bdp]), t_leafu, timeout=200, weight=0.5, config=c, bdp=bdp,
                     want=want, witness=gsearch.witness_for(mode, sets))
            t.wkey = "w/" + c
            out.append(t)
    return out


def kernels(mode, sets, want=None):
    """every kernel reachable in the five configurations, and the dot-product one"""
    out = []
    for c in CF:
        ks = [(None, None, False)]
        if c in ("aarch64", "armhf"):
            ks += [(b, None, s) for b in (LNZ, SLNZ) for s in (False, True)]
        if c == "aarch64":
            ks.append((None, "NEON_64_Kernel12x8Depth4_dotprod", False))
        for bdp, k, sw in ks + ([(L7R5, None, False), (L7R5, None, True)] if c == "armhf" else []):
            t = Task("kernel/%s/%s%s" % (c, {None: "default", LNZ: "lhs-nonzero", SLNZ: "int8", L7R5: "12bit"}[bdp] if k is None else k, "-transposed" if sw else ""),
                     t_kernel, timeout=200, weight=0.4, config=c, bdp=bdp, kernel=k, swap=sw, want=want, witness=gsearch.witness_for(mode, sets))
            t.wkey = "w/" + c
            out.append(t)
    return out


def dispatch(mode, sets, want=None, configs=("x86_default", "aarch64")):
    return simple("dispatch", t_dispatch, mode, sets, configs=configs, want=want)


UQ = {"x86_default": [0], "x86_sse4": [1], "x86_avx2": [1], "aarch64": [0], "armhf": [1]}


def unpack(mode, sets, kind, want=None, flip=0):
    """UnpackResult's loops; quick tier: one result order per instruction set (both orders are covered)"""
    out = []
    for c in CF:
        for o in ([0, 1] if TIER == "thorough" else [x ^ flip for x in UQ[c]]):
            t = Task("unpack/%s/%s%d" % (c, kind, o), t_unpack, timeout=400, weight=3 + 2 * o, config=c, kind=kind, order=o, want=want,
                     witness=gsearch.witness_for(mode, sets))
            t.wkey = "w/" + c
            out.append(t)
    return out


def simple(name, fn, mode, sets, configs=CF, **kw):
    out = []
    for c in configs:
        t = Task("%s/%s" % (name, c), fn, timeout=300, config=c, witness=gsearch.witness_for(mode, sets), **kw)
        t.wkey = "w/" + c
        out.append(t)
    return out
