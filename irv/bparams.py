"""C05: contract of BlockParams::Init and GetSideBlockParams, for all sizes, thread counts and cache budgets (int mode)."""
import re
from . import build, term as T, solve
from .exec import Ptr, Stop, Undecided, State
from .loops import LoopEngine

I32 = lambda v: T.C(32, v)


KEEP = (r"^_ZN8gemmlowp7RoundUpIL[a-z]\d", r"^_ZN8gemmlowp12CeilQuotientIi")


def h_roundup(en, st, a, I):
    """RoundUp<M>(i), i >= 0: the multiple of M in [i, i + M - 1] (proved by run_helpers)"""
    m = int(re.search(r"RoundUpIL[a-z](\d+)E", I.x["callee"].v).group(1))
    i = a[0]
    for b, n in ((T.cmp("sge", i, I32(0)), "RoundUp argument >= 0"), (T.cmp("sle", i, I32((1 << 31) - m)), "RoundUp does not overflow")):
        en.prove(st, b, n, "")
        st.assume(b)
    q = T.scale(T.fresh("ru", 32, 0, (1 << 31) - 1), m, True)
    st.assume(T.cmp("sle", i, q))
    st.assume(T.cmp("slt", q, T.add(i, I32(m), True)))
    return [(st, q)]


def h_ceil(en, st, a, I):
    """CeilQuotient(a, b), a >= 0, b >= 1: b*(q-1) < a <= b*q, hence 0 <= q <= a, and 1 <= q if 1 <= a (proved by run_helpers)"""
    x, y = a
    for b, n in ((T.cmp("sge", x, I32(0)), "CeilQuotient dividend >= 0"), (T.cmp("sge", y, I32(1)), "CeilQuotient divisor >= 1"),
                 (T.cmp("sle", T.add(x, y, True), I32((1 << 31) - 1)), "CeilQuotient does not overflow")):
        en.prove(st, b, n, "")
        st.assume(b)
    pos = en.valid(st, T.cmp("sge", x, I32(1)))
    q = T.fresh("cq", 32, 1 if pos else 0, (1 << 31) - 1)
    st.assume(T.cmp("sle", q, x))
    if not pos:
        st.assume(T.bor(T.cmp("sge", q, I32(1)), T.cmp("eq", x, I32(0))))
    return [(st, q)]


class Eng(LoopEngine):
    # assumption: factor * bytes stays within +-2^30 (0 <= rhs factor <= 1, |bytes| <= 2^30)
    fptosi_range = (-(1 << 30), 1 << 30)


def run_init(config, fmt, timeout=30):
    mod = build.module("block_params.cc", config, keep=KEEP)
    out = []
    v = {n: T.var(n, 32, 1, (1 << 31) - 1) for n in ("rows", "cols", "depth", "threads")}
    l1, l2 = T.var("l1_bytes", 32, -(1 << 30), 1 << 30), T.var("l2_bytes", 32, -(1 << 30), 1 << 30)

    def res(en, st, a, I):
        kr, kc, kd, kg = [x.const for x in a[:4]]
        l1r, l1c, l1d, l2r, l2c, l2d = a[4:]
        P = lambda b, n: en.prove(st, b, n, fmt)
        for x, n in ((l1r, "l1_rows"), (l1c, "l1_cols"), (l1d, "l1_depth"), (l2r, "l2_rows"), (l2c, "l2_cols"), (l2d, "l2_depth")):
            P(T.cmp("sge", x, I32(1)), n + " >= 1")
        for x, k, n in ((l1r, kr, "l1_rows"), (l2r, kr, "l2_rows"), (l1c, kc, "l1_cols"), (l2c, kc, "l2_cols"), (l1d, kg, "l1_depth"),
                        (l2d, kg, "l2_depth")):
            P(T.cmp("eq", T.div("srem", x, I32(k)), I32(0)), n + " is a multiple of the register block")
        P(T.cmp("eq", T.div("srem", I32(kg), I32(kd)), I32(0)), "the kernel depth divides the register size")
        P(T.band(T.cmp("sge", l2d, v["depth"]), T.cmp("slt", T.sub(l2d, v["depth"], True), I32(kg))),
          "l2_depth is depth rounded up to the register size")
        P(T.cmp("eq", l1c, l2c), "l1_cols equals l2_cols")
        P(T.cmp("sle", l1r, l2r), "l1_rows at most l2_rows")
        P(T.cmp("sle", l1d, l2d), "l1_depth at most l2_depth")
        P(T.cmp("slt", T.sub(l2c, v["cols"], True), I32(kc)), "l2_cols exceeds cols by less than a register block")
        P(T.cmp("slt", T.sub(l2r, v["rows"], True), I32(kr)), "l2_rows exceeds rows by less than a register block")
        en.reached.add("cover:end")
        out.append(1)
        return [(st, None)]
    en = Eng(mod, hooks={"bp_result": res, "_ZN8gemmlowp7RoundUpIL*": h_roundup, "_ZN8gemmlowp12CeilQuotientIi*": h_ceil}, timeout=timeout)
    st = State()
    lim = 1 << 29
    for n in ("rows", "cols", "depth"):
        st.assume(T.cmp("sle", v[n], I32(lim)))
    rf = T.var("rhs_factor", 32)
    rets = en.run("@bp_" + fmt, [v["rows"], v["cols"], v["depth"], v["threads"], l1, l2, rf], st)
    return en, rets


def run_side(config, timeout=20):
    mod = build.module("block_params.cc", config)
    x = [T.var(n, 32) for n in ("l1r", "l1c", "l1d", "l2r", "l2c", "l2d")]

    def res(en, st, a, I):
        s, w1, d1, w2, d2 = a
        z = T.cmp("eq", s, I32(0))
        en.prove(st, T.cmp("eq", w1, T.ite(z, x[0], x[1])), "l1_width is the side's l1 size", "")
        en.prove(st, T.cmp("eq", w2, T.ite(z, x[3], x[4])), "l2_width is the side's l2 size", "")
        en.prove(st, T.band(T.cmp("eq", d1, x[2]), T.cmp("eq", d2, x[5])), "depths passed on", "")
        en.reached.add("cover:end")
        return [(st, None)]
    en = LoopEngine(mod, hooks={"sb_result": res}, timeout=timeout)
    s = T.var("side", 32, 0, 1)
    return en, en.run("@side", [s] + x, State())


def run_helpers(config, timeout=20):
    """the contracts of RoundUp and CeilQuotient used above, for every instantiation in the extracted code"""
    mod = build.module("block_params.cc", config, keep=KEEP)
    en = LoopEngine(mod, timeout=timeout)
    for f in sorted(mod.funcs):
        st = State()
        m = re.match(r"@_ZN8gemmlowp7RoundUpIL[a-z](\d+)Ei", f)
        if m:
            k = int(m.group(1))
            x = T.var("i%d" % k, 32, 0, (1 << 31) - k)
            for s, r in en.run(f, [x], st):
                en.prove(s, T.cmp("eq", T.div("srem", r, I32(k)), I32(0)), "RoundUp<%d> is a multiple" % k, f)
                en.prove(s, T.band(T.cmp("sle", x, r), T.cmp("slt", r, T.add(x, I32(k), True))), "RoundUp<%d> is the next multiple" % k, f)
                en.reached.add("cover:end")
        if re.match(r"@_ZN8gemmlowp12CeilQuotientIi", f):
            a, b = T.var("a", 32, 0, (1 << 31) - 1), T.var("b", 32, 1, (1 << 31) - 1)
            st.assume(T.cmp("sle", T.add(a, b, True), I32((1 << 31) - 1)))
            for s, q in en.run(f, [a, b], st):
                en.prove(s, T.band(T.cmp("sge", q, I32(0)), T.cmp("sle", q, a)), "0 <= CeilQuotient <= dividend", f)
                en.prove(s, T.bor(T.cmp("sge", q, I32(1)), T.cmp("eq", a, I32(0))), "CeilQuotient >= 1 for a positive dividend", f)
                en.prove(s, T.band(T.cmp("slt", T.mul(b, T.sub(q, I32(1), True), True), a), T.cmp("sle", a, T.mul(b, q, True))),
                         "CeilQuotient rounds up", f)
                en.reached.add("cover:end")
    return en, [1]
