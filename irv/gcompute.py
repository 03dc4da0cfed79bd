"""Compute's loops (int mode): every entry of the packed result is the sum over the whole depth of the packed operands' products,
each depth index entering exactly once; the kernel is called with the addresses the packed layout prescribes.
The kernel is used through its contract; Reserve/GetPointer as in gpack."""
from . import build, term as T, solve
from .exec import Ptr, Stop, Undecided, State
from .loops import LoopEngine
from .gemm import h_roundup
from .gpack import layout, pdiv, to32, I32, M31

KEEP = ("9Allocator10GetPointerI", "9Allocator7ReserveI", "7RoundUpIL")


class Compute:
    def __init__(self, config, bdp=None, timeout=20):
        self.mod = build.module("gemm_compute.cc", config, defs="-DBDP=" + bdp if bdp else "", keep=KEEP)
        self.en = LoopEngine(self.mod, hooks={
            "*9Allocator7ReserveI": self.h_reserve, "*9Allocator10GetPointerI": self.h_pointer, "*7RoundUpIL": h_roundup,
            "g_mark": self.h_mark, "g_kernel": self.h_kernel, "g_end": self.h_end}, timeout=timeout)
        self.en.tracked = ["tgt"]

    def req(self, st, b, name):
        self.en.prove(st, b, name, "")
        st.assume(b)

    def h_mark(self, en, st, a, I):
        self.mark = a[0].const
        return [(st, None)]

    def h_reserve(self, en, st, a, I):
        h, al, n = a
        ty = I.x["callee"].v.split("7ReserveI")[1][0]
        obj = {(0, "h"): "ldata", (0, "i"): "lsums", (1, "h"): "rdata", (1, "i"): "rsums", (2, "i"): "res"}.get((self.mark, ty))
        if obj is None:
            raise Undecided("unexpected reservation")
        v = self.v
        if obj == "res":
            self.req(st, T.cmp("sge", n, T.sext(T.mul(v["l2r"], v["l2c"], True), n.w)), "reserved packed result holds the whole block")
        k = T.fresh("handle", 32)
        self.handles[k.single.id] = obj
        m = st.wmem(h.obj)
        for o in [o for o in m if h.off.const <= o < h.off.const + en.pb // 8]:
            m.pop(o)
        m[h.off.const] = (k, 4)
        return [(st, None)]

    def h_pointer(self, en, st, a, I):
        h = a[1]
        r = st.mem.get(h.obj, {}).get(h.off.const)
        o = self.handles.get(r[0].single.id) if r is not None and r[0].single is not None else None
        if o is None:
            raise Undecided("handle not tracked")
        return [(st, self.v[o])]

    def h_kernel(self, en, st, a, I):
        v = self.v
        dst, rs, cs, lp, rp, sd, rd = a
        sd, rd, rs, cs = to32(sd), to32(rd), to32(rs), to32(cs)
        for p, o, n in ((dst, "res", "the packed result"), (lp, "ldata", "the packed lhs"), (rp, "rdata", "the packed rhs")):
            if not (isinstance(p, Ptr) and p.obj == v[o].obj):
                en.prove(st, T.FALSE, "kernel is given " + n, "%r" % (p,))
                raise Stop()
        self.req(st, T.band(T.cmp("eq", rs, I32(1)), T.cmp("eq", cs, v["l2r"])), "kernel strides are those of the packed result")
        q, rest = pdiv(dst.off, T.scale(T.sext(v["l2r"], dst.off.w), 4, True))
        r0, odd = pdiv(rest, T.C(rest.w, 4)) if rest.t else (rest, T.E(rest.w, {}, True))
        if odd.t:
            raise Undecided("kernel destination not recognised")
        r0, c0 = to32(r0), to32(q)
        z = I32(0)
        kr, kc, kd = self.kr, self.kc, self.kd
        self.req(st, T.band(T.cmp("sge", r0, z), T.cmp("sle", T.add(r0, I32(kr), True), v["l2r"]), T.cmp("sge", c0, z),
                            T.cmp("sle", T.add(c0, I32(kc), True), v["l2c"])), "kernel block lies inside the packed result")
        self.req(st, T.band(T.cmp("eq", T.div("srem", r0, I32(kr)), z), T.cmp("eq", T.div("srem", c0, I32(kc)), z)),
                 "kernel block is aligned to the register block")
        self.req(st, T.band(T.cmp("sge", sd, z), T.cmp("sge", rd, I32(kd))), "kernel runs over a positive depth")
        self.req(st, T.band(T.cmp("eq", T.div("srem", sd, I32(kd)), z), T.cmp("eq", T.div("srem", rd, I32(kd)), z)),
                 "kernel depths are multiples of the kernel depth")
        rs = I32(self.rs)
        self.req(st, T.cmp("eq", T.div("srem", sd, rs), z), "kernel runs start at a packed register boundary")
        self.req(st, T.bor(T.cmp("eq", T.div("srem", rd, rs), z), T.cmp("sge", T.add(sd, rd, True), v["depth"])),
                 "cells up to the next register boundary after a run are packed padding")
        s2 = st.fork()
        q, rest = pdiv(sd, v["l1d"])
        ok = T.band(T.cmp("sge", rest, z), T.cmp("slt", rest, v["l1d"]))
        if not en.valid(s2, ok):
            q = T.fresh("q", 32, 0, M31)
            lq = T.mul(v["l1d"], q, True)
            s2.assume(T.band(T.cmp("sle", lq, sd), T.cmp("slt", sd, T.add(lq, v["l1d"], True))))
        end = T.add(T.mul(v["l1d"], q, True), v["l1d"], True)
        for nm, w, p, k, l2w in (("lhs", r0, lp, kr, "l2r"), ("rhs", c0, rp, kc, "l2c")):
            vv = dict(v, l2w=v[l2w])
            pos = layout(en, s2, vv, k, w, sd, q)
            en.prove(s2, T.cmp("eq", p.off, T.sext(pos, en.pb)), "kernel reads the packed %s at the layout's address" % nm, "")
        en.prove(s2, T.band(T.cmp("sle", T.add(sd, rd, True), end), T.cmp("sle", T.add(sd, rd, True), v["l2d"])),
                 "kernel run stays inside one contiguous packed run", "")
        self.cover(st, r0, c0, sd, rd)
        return [(st, None)]

    def cover(self, st, r, c, sd, rd):
        en, v = self.en, self.v
        r1, c1, d1 = T.add(r, I32(self.kr), True), T.add(c, I32(self.kc), True), T.add(sd, rd, True)
        en.hints.append([(sd, d1, v["D"]), (r, r1, v["R"]), (c, c1, v["C"])])
        inrc = T.band(T.cmp("sle", r, v["R"]), T.cmp("slt", v["R"], r1), T.cmp("sle", c, v["C"]), T.cmp("slt", v["C"], c1))
        ind = T.band(T.cmp("sle", sd, v["D"]), T.cmp("slt", v["D"], d1))
        g = st.ghost["tgt"]
        base = T.ite(T.cmp("eq", sd, I32(0)), I32(0), g)       # a run starting at depth 0 overwrites, others accumulate
        st.ghost["tgt"] = T.ite(inrc, T.add(base, T.ite(ind, I32(1), I32(0)), True), g)

    def h_end(self, en, st, a, I):
        v = self.v
        g = st.ghost["tgt"]
        en.prove(st, T.bimp(T.cmp("slt", v["D"], v["depth"]), T.cmp("eq", g, I32(1))), "every depth index enters every entry exactly once", "")
        up = T.add(v["depth"], I32(self.rs - 1), True)
        up = T.sub(up, T.div("srem", up, I32(self.rs)), True)
        en.prove(st, T.bimp(T.cmp("sge", v["D"], up), T.cmp("eq", g, I32(0))), "no depth index beyond the packed depth enters", "")
        en.prove(st, T.bimp(T.cmp("sge", v["D"], v["depth"]), T.bor(T.cmp("eq", g, I32(0)), T.cmp("eq", g, I32(1)))), "zero padding enters at most once", "")
        en.reached.add("cover:end")
        return [(st, None)]

    def const(self, f):
        (s, r), = self.en.run(f, [], State())
        return r.const

    def run(self):
        en = self.en
        self.handles = {}
        self.kr, self.kc, self.kd, self.rs = [self.const(f) for f in ("@k_rows", "@k_cols", "@k_depth", "@k_rs")]
        st = State()
        v = self.v = {}
        mult = lambda n, k: T.scale(T.var("c" + n + "_q", 32, 1, M31 // k), k, True)
        v["l1r"], v["l2r"] = mult("l1r", self.kr), mult("l2r", self.kr)
        v["l2c"] = mult("l2c", self.kc)
        v["l1c"] = v["l2c"]
        v["l1d"], v["l2d"] = mult("l1d", self.rs), mult("l2d", self.rs)
        v["depth"] = T.var("cdepth", 32, 1, M31 - 64)
        for n in ("R", "C", "D"):
            v[n] = T.var("c" + n, 32, 0, M31)
        for n in ("alloc", "ldata", "lsums", "rdata", "rsums", "res"):
            v[n] = en.new_obj(st, n)
            en.objs[v[n].obj].meta = {"align": 1}
        st.assume(T.cmp("sle", v["depth"], v["l2d"]))
        st.assume(T.cmp("slt", v["R"], v["l2r"]))
        st.assume(T.cmp("slt", v["C"], v["l2c"]))
        st.assume(T.cmp("slt", v["D"], v["l2d"]))
        st.ghost["tgt"] = T.var("initial", 32)
        rets = en.run("@cp", [v[n] for n in ("alloc", "l1r", "l1c", "l1d", "l2r", "l2c", "l2d", "depth")], st)
        return en, rets


def run_compute(config, bdp=None, timeout=20):
    return Compute(config, bdp, timeout).run()
