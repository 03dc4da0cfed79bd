"""UnpackResult's loops (int mode): every entry of the block is produced by exactly one UnpackResultBlock call, from its own
accumulator, sums and offsets, at its own place.  UnpackResultBlock, LoadContiguous and StoreFinalOutput<8x8> are used through
their contracts (proved bit-precisely by the leaf harness gemm_leaf.cc)."""
import re
from . import build, term as T
from .exec import Ptr, Stop, Undecided, State
from .loops import LoopEngine

I32 = lambda v: T.C(32, v)
KEEP = (r"17UnpackResultBlockI", r"16StoreFinalOutputI", r"14LoadContiguousI")
SHAPE = re.compile(r"13RegisterBlockI[a-z]Li(\d+)ELi(\d+)E")


class Unpack:
    def __init__(self, config, kind, order, timeout=20):
        self.mod = build.module("gemm_unpack.cc", config, keep=KEEP)
        self.kind, self.order = kind, order
        self.regw = {}
        self.en = LoopEngine(self.mod, hooks={"*17UnpackResultBlockI": self.h_block, "*14LoadContiguousI": self.h_load,
                                              "*16StoreFinalOutputI": self.h_store, "g_end": self.h_end}, timeout=timeout)
        self.en.tracked = ["tgt"]

    def fld(self, st, p, i, kind="i32"):
        """field i of {ptr, int, int, int}"""
        from .ir import Ty
        en = self.en
        off = 0 if i == 0 else self.en.pb // 8 + 4 * (i - 1)
        m = st.mem.get(p.obj, {})
        c = p.off.const
        if c is None:
            raise Undecided("field of a view at a symbolic address")
        r = m.get(c + off)
        if r is None:
            raise Undecided("view field not initialised")
        return r[0]

    def req(self, st, b, name):
        self.en.prove(st, b, name, "")
        st.assume(b)

    def peq(self, st, p, obj, name):
        if not (isinstance(p, Ptr) and p.obj == obj.obj):
            self.en.prove(st, T.FALSE, name, "%r" % (p,))
            raise Stop()
        self.req(st, T.cmp("eq", p.off, obj.off), name)

    def view(self, st, dst):
        return self.fld(st, dst, 0)

    def real(self, st, dst):
        p = self.view(st, dst)
        return isinstance(p, Ptr) and p.obj == self.v["d"].obj

    def dstview(self, st, dst):
        v = self.v
        self.peq(st, self.view(st, dst), v["d"], "result view pointer")
        for i, n in ((1, "rows"), (2, "cols"), (3, "ds")):
            self.req(st, T.cmp("eq", self.fld(st, dst, i), v[n]), "result view " + n)

    def h_block(self, en, st, a, I):
        src, ex, dst, ls, rs, lo, ro, depth, srow, scol, grow, gcol, drow, dcol = a
        v = self.v
        R, C = [int(x) for x in SHAPE.search(I.x["callee"].v).groups()]
        self.peq(st, self.fld(st, src, 0), v["packed"], "accumulators of the packed result")
        self.req(st, T.cmp("eq", self.fld(st, src, 3), v["l2r"]), "packed result stride")
        self.peq(st, self.fld(st, ls, 0), v["ls"], "lhs sums")
        self.peq(st, self.fld(st, rs, 0), v["rs"], "rhs sums")
        if self.kind == "v":
            self.peq(st, self.fld(st, lo, 0), v["lo"], "lhs offset vector")
            self.peq(st, self.fld(st, ro, 0), v["ro"], "rhs offset vector")
        else:
            for x, n in ((lo, "lov"), (ro, "rov")):
                r = st.mem.get(x.obj, {}).get(x.off.const)
                self.req(st, T.cmp("eq", r[0], v[n]), "offset value " + n)
        self.executor(st, ex)
        self.req(st, T.cmp("eq", depth, v["depth"]), "depth passed to the block")
        z = I32(0)
        self.req(st, T.band(T.cmp("sge", srow, z), T.cmp("sle", T.add(srow, I32(R), True), v["br"]), T.cmp("sge", scol, z),
                            T.cmp("sle", T.add(scol, I32(C), True), v["bc"])), "register block fits the block being unpacked")
        self.req(st, T.cmp("eq", grow, T.add(v["r0"], srow, True)), "global row")
        self.req(st, T.cmp("eq", gcol, T.add(v["c0"], scol, True)), "global column")
        if self.real(st, dst):
            self.dstview(st, dst)
            self.req(st, T.band(T.cmp("eq", drow, grow), T.cmp("eq", dcol, gcol)), "stored at its own place")
            self.cover(st, grow, R, gcol, C)
        else:
            p = self.view(st, dst)
            if not isinstance(p, Ptr) or p.off.const is None or drow.const is None or dcol.const is None:
                raise Undecided("temporary destination not understood")
            for i in (1, 2, 3):
                if self.fld(st, dst, i).const is None:
                    raise Undecided("temporary destination of symbolic size")
            rr, cc, ss = [self.fld(st, dst, i).const for i in (1, 2, 3)]
            self.req(st, T.bconst(0 <= drow.const and drow.const + R <= rr and 0 <= dcol.const and dcol.const + C <= cc),
                     "temporary destination holds the block")
            # cell -> global position, per cell of the (column-major) temporary
            for j in range(C):
                for i in range(R):
                    st.ghost[("tmp", p.obj, p.off.const + (dcol.const + j) * ss + drow.const + i)] = \
                        (T.add(grow, I32(i), True), T.add(gcol, I32(j), True))
        return [(st, None)]

    def executor(self, st, ex):
        """the executor holds references into the caller's pipeline only"""
        m = st.mem.get(ex.obj, {})
        c = ex.off.const
        n = 0
        for o, (val, sz) in m.items():
            if isinstance(val, Ptr):
                n += 1
                self.en.prove(st, T.bconst(val.obj == self.v["pipe"].obj), "the caller's output pipeline is used", "%r" % (val,))
        if not n:
            raise Undecided("executor without a reference to the pipeline")

    def h_load(self, en, st, a, I):
        dst, buf = a[0], a[1]
        R, C = [int(x) for x in SHAPE.search(I.x["callee"].v).groups()]
        cells = {}
        base = buf.off.const
        for j in range(C):
            for i in range(R):
                g = st.ghost.get(("tmp", buf.obj, base + j * R + i))
                if g is None or g[0] == "havoc":
                    self.en.prove(st, T.FALSE, "temporary block completely filled", "cell %d,%d" % (i, j))
                    raise Stop()
                cells[(i, j)] = g
        g = (R, C, tuple(sorted(cells.items())))
        st.ghost[("reg", dst.obj)] = g
        if dst.off.const == 0:            # by-value ABIs load the block back: mark its words
            m = st.wmem(dst.obj)
            m.clear()
            for k in range(R * C // 8):
                w = T.fresh("blk", 64)
                m[8 * k] = (w, 8)
                self.regw[w.single.id] = (k, g)
        return [(st, None)]

    def stored(self, st, src):
        if isinstance(src, Ptr):
            return st.ghost.get(("reg", src.obj))
        gs = [self.regw.get(w.single.id) if isinstance(w, T.E) and w.single is not None else None for w in src]
        if any(x is None or x[0] != k or x[1] is not gs[0][1] for k, x in enumerate(gs)):
            return None
        return gs[0][1]

    def h_store(self, en, st, a, I):
        src, dst, row, col = a
        R, C = [int(x) for x in SHAPE.search(I.x["callee"].v).groups()]
        g = self.stored(st, src)
        if g is None or g[0] == "havoc":
            raise Undecided("stored register block not tracked")
        self.req(st, T.bconst((g[0], g[1]) == (R, C)), "stored block has the loaded shape")
        self.dstview(st, dst)
        for (i, j), (gr, gc) in g[2]:
            self.req(st, T.band(T.cmp("eq", gr, T.add(row, I32(i), True)), T.cmp("eq", gc, T.add(col, I32(j), True))),
                     "entry of the transposed 8x8 block stored at its own place")
        self.cover(st, row, R, col, C)
        return [(st, None)]

    def cover(self, st, r, R, c, C):
        en, v = self.en, self.v
        r1, c1 = T.add(r, I32(R), True), T.add(c, I32(C), True)
        en.hints.append([(r, r1, v["R"]), (c, c1, v["C"])])
        cov = T.band(T.cmp("sle", r, v["R"]), T.cmp("slt", v["R"], r1), T.cmp("sle", c, v["C"]), T.cmp("slt", v["C"], c1))
        st.ghost["tgt"] = T.add(st.ghost["tgt"], T.ite(cov, I32(1), I32(0)), True)

    def h_end(self, en, st, a, I):
        v = self.v
        inside = T.band(T.cmp("sle", v["r0"], v["R"]), T.cmp("slt", v["R"], T.add(v["r0"], v["br"], True)), T.cmp("sle", v["c0"], v["C"]),
                        T.cmp("slt", v["C"], T.add(v["c0"], v["bc"], True)))
        en.prove(st, T.cmp("eq", st.ghost["tgt"], T.ite(inside, I32(1), I32(0))),
                 "every entry of the block is produced exactly once, none outside it", "")
        en.reached.add("cover:end")
        return [(st, None)]

    def run(self):
        en = self.en
        st = State()
        v = self.v = {}
        M = (1 << 31) - 1
        for n in ("rows", "cols", "ds", "r0", "c0", "br", "bc", "l2r", "l2c", "R", "C"):
            v[n] = T.var(n, 32, 0, M)
        v["depth"] = T.var("depth", 32, 1, M)
        for n in ("lov", "rov"):
            v[n] = T.var(n, 32)
        for n in ("d", "packed", "ls", "rs", "lo", "ro", "pipe"):
            v[n] = en.new_obj(st, n)
            en.objs[v[n].obj].meta = {"align": 1}
        st.assume(T.cmp("sle", T.add(v["r0"], v["br"], True), v["rows"]))
        st.assume(T.cmp("sle", T.add(v["c0"], v["bc"], True), v["cols"]))
        st.assume(T.cmp("sle", v["br"], v["l2r"]))
        st.assume(T.cmp("sle", v["bc"], v["l2c"]))
        st.assume(T.cmp("slt", v["R"], v["rows"]))
        st.assume(T.cmp("slt", v["C"], v["cols"]))
        st.ghost["tgt"] = I32(0)
        args = [v[n] for n in ("d", "rows", "cols", "ds", "r0", "c0", "br", "bc", "packed", "l2r", "l2c", "depth", "ls", "rs", "lo", "ro",
                               "lov", "rov", "pipe")]
        f = "@up_%s%d" % (self.kind, self.order)
        rets = en.run(f, args, st)
        return en, rets


def run_unpack(config, kind, order, timeout=20):
    return Unpack(config, kind, order, timeout).run()
