"""Register-block leaves, bit-precisely (bv mode): MakeCompleteSrc, UseCompleteSrcInPlace and Pack of the real packing code.

The source matrix has a symbolic stride: an access is resolved by the polynomial form of its address (w*stride + d), so the
result holds for every stride; entry (w, d) is the symbolic byte s[w][d]."""
from . import build, ir, term as T, solve
from .exec import Engine, Ptr, Stop, Undecided, State, Obligation, Vec

KEEP = ("9Allocator10GetPointerI", "9Allocator7ReserveI")
C = T.C


def cell_offset(cw, cd, order, w, d):
    """offset of element (w, d) in a packed register block of cells cw x cd (n cells of width)"""
    if order == 0:
        return w + d * cw
    if order == 1:
        return d + w * cd
    return ((cw + w - d) * cw + d) % (cw * cw)


def fmt_offset(f, w, d):
    """offset of element (w, d) in a packed run: depth cells outermost, then width cells"""
    cw, cd, n, order = f
    return (d // cd) * (n * cw * cd) + (w // cw) * (cw * cd) + cell_offset(cw, cd, order, w % cw, d % cd)


class Src:
    """operand entries, addressed through a symbolic stride"""

    def __init__(self, wm, stride, nw, nd, name="s", bits=8):
        self.wm, self.stride, self.nw, self.nd, self.name = wm, stride, nw, nd, name

    def split(self, en, st, p, n):
        sid = None
        k = c = 0
        for m, v in p.off.t.items():
            if not m:
                c = v
            elif len(m) == 1 and m[0] in self.ids(en):
                k += v
            else:
                raise Undecided("source address %r" % (p.off,))
        return k, c

    def ids(self, en):
        s = T.sext(self.stride, en.pb)
        return (s.single.id, self.stride.single.id)

    def load(self, en, st, ob, p, n, ty):
        k, c = self.split(en, st, p, n)
        major, minor = (self.nw, self.nd) if self.wm else (self.nd, self.nw)
        ok = 0 <= k < major and 0 <= c and c + n <= minor
        if not ok:
            en.obls.append(Obligation("only entries of the source block are read", "%d bytes at %d*stride+%d" % (n, k, c), "refuted",
                                      solve.Result("sat", {}), detail=""))
            raise Stop()
        return T.concat([T.var("%s[%d][%d]" % ((self.name, k, c + i) if self.wm else (self.name, c + i, k)), 8) for i in range(n)])

    def store(self, en, st, ob, p, v, n):
        en.obls.append(Obligation("the source is not written", "%r" % (p,), "refuted", solve.Result("sat", {}), detail=""))
        raise Stop()


class Rebase:
    """buffer addressed from a symbolic base: cells are kept relative to it"""

    def __init__(self, en, st, base, name, elem=None):
        self.base = base
        self.sh = en.new_obj(st, name, elem=elem, sym=elem is not None)
        self.name = name

    def at(self, en, p):
        k = T.sub(p.off, self.base, True).const
        if k is None:
            raise Undecided("%s addressed at %r" % (self.name, p.off))
        return Ptr(self.sh.obj, C(en.pb, k))

    def load(self, en, st, ob, p, n, ty):
        return en.load_scalar(st, self.at(en, p), ir.ity(8 * n))

    def store(self, en, st, ob, p, v, n):
        en.store_scalar(st, self.at(en, p), v, ir.ity(8 * n))


class Leaf:
    def __init__(self, config, bdp=None, src=None, timeout=60):
        d = (" -DBDP=" + bdp if bdp else "") + (" -DWIDTH_MAJOR_ONLY -DSRC=" + src if src else "")
        self.mod = build.module("gemm_packleaf.cc", config, defs=d.strip(), keep=KEEP)
        self.en = Engine(self.mod, "bv", timeout=timeout, hooks={
            "*9Allocator7ReserveI": self.h_reserve, "*9Allocator10GetPointerI": self.h_pointer,
            "g_built": lambda en, st, a, I: [(st, None)], "g_src": self.h_src, "g_end": self.h_end})
        self.signed = src is not None and "std::int8" in src

    def const(self, f):
        (s, r), = self.en.run("@" + f, [], State())
        return r.const

    def h_reserve(self, en, st, a, I):
        ty = I.x["callee"].v.split("7ReserveI")[1][0]
        obj = {"h": "data", "i": "sums"}.get(ty)
        if obj is None:
            raise Undecided("unexpected reservation")
        h = a[0]
        k = T.fresh("handle", 32)
        self.handles[k.single.id] = obj
        m = st.wmem(h.obj)
        for o in [o for o in m if h.off.const <= o < h.off.const + en.pb // 8]:
            m.pop(o)
        m[h.off.const] = (k, 4)
        return [(st, None)]

    def h_pointer(self, en, st, a, I):
        h = a[1]
        r = st.mem.get(h.obj, {}).get(h.off.const)
        o = self.handles.get(r[0].single.id) if r is not None and r[0].single is not None else None
        if o is None:
            raise Undecided("handle not tracked")
        return [(st, self.v[o])]

    def fmt(self, side):
        return tuple(self.const("%s_%d" % (x, side)) for x in ("cw", "cd", "cn", "co"))

    # ---- MakeCompleteSrc / UseCompleteSrcInPlace
    def h_src(self, en, st, a, I):
        data, w, d, s = a
        kw, rs = self.kw, self.rs
        if self.what == "ip":
            en.prove(st, T.bconst(isinstance(data, Ptr) and data.obj == self.v["src"].obj and data.off.const == 0),
                     "in-place block is the source block", "%r" % (data,))
            for x, y, n in ((w, self.v["ws"], "width"), (d, self.v["ds"], "depth"), (s, self.v["stride"], "stride")):
                en.prove(st, T.cmp("eq", x, y), "in-place block " + n, "")
            en.reached.add("cover:end")
            return [(st, None)]
        ok = w.const == kw and d.const == rs and s.const is not None and isinstance(data, Ptr) and data.off.const is not None
        en.prove(st, T.bconst(ok), "completed block has the size of a register block", "%r %r %r" % (w, d, s))
        if not ok:
            raise Stop()
        zp = self.zp
        ws, ds = self.cur
        for i in range(kw):
            for j in range(rs):
                p = Ptr(data.obj, C(en.pb, data.off.const + (i * s.const + j if self.wm else j * s.const + i)))
                x = en.load_scalar(st, p, ir.ity(8))
                want = T.var("s[%d][%d]" % (i, j), 8) if i < ws and j < ds else C(8, zp)
                if x == want:
                    self.nsyn += 1
                    continue
                en.prove(st, T.cmp("eq", x, want), "completed block (%dx%d): source entries, padded with the zero point" % (ws, ds),
                         "entry %d,%d" % (i, j))
        en.obls.append(Obligation("completed block: source entries, padded with the zero point", "%dx%d" % (ws, ds), "discharged",
                                  solve.Result("unsat", solver="normal-form")))
        en.reached.add("cover:end")
        return [(st, None)]

    def setup(self, side, order):
        en = self.en
        st = State()
        self.handles = {}
        self.f = self.fmt(side)
        self.kw, self.rs = self.f[0] * self.f[2], self.const("k_rs")
        self.zp = self.const("zp_%d" % side)
        self.wm = order == "w"
        self.nsyn = 0
        v = self.v = {}
        v["stride"] = T.var("stride", 32)
        v["src"] = en.new_obj(st, "src")
        v["alloc"] = en.new_obj(st, "alloc")
        return en, st, v

    def run_make(self, side, order):
        en, st0, v = self.setup(side, order)
        self.what = "mk"
        rets = []
        for ws in range(1, self.kw + 1):
            for ds in range(1, self.rs + 1):
                st = st0.fork()
                self.cur = (ws, ds)
                en.objs[v["src"].obj].handler = Src(self.wm, v["stride"], ws, ds)
                rets += en.run("@mk_%d%s" % (side, order), [v["src"], C(32, ws), C(32, ds), v["stride"]], st)
        self.what = "ip"
        v["ws"], v["ds"] = T.var("ws", 32), T.var("ds", 32)
        rets += en.run("@ip_%d%s" % (side, order), [v["src"], v["ws"], v["ds"], v["stride"]], st0.fork())
        return en, rets

    # ---- Pack
    def h_end(self, en, st, a, I):
        pos, = a
        kw, rs, v = self.kw, self.rs, self.v
        size = kw * rs
        en.prove(st, T.bconst(isinstance(pos, Ptr) and pos.obj == v["data"].obj and
                              T.sub(pos.off, self.dm.base, True).const == size), "position advances by one register block", "%r" % (pos,))
        cells = st.mem.get(self.dm.sh.obj, {})
        en.prove(st, T.bconst(all(0 <= o and o + n <= size for o, (_, n) in cells.items())), "only this register block's packed bytes are written", "")
        sc = st.mem.get(self.sm.sh.obj, {})
        en.prove(st, T.bconst(all(0 <= o and o + n <= 4 * kw for o, (_, n) in sc.items())), "only this register block's sums are touched", "")
        zp8 = C(8, self.zp)
        for w in range(kw):
            tot = T.var("sums[%d]" % w, 32)
            for d in range(rs):
                s = T.var("s[%d][%d]" % (w, d), 8)
                o = fmt_offset(self.f, w, d)
                got = en.load_scalar(st, Ptr(self.dm.sh.obj, C(en.pb, o)), ir.ity(8))
                want = T.sub(s, zp8)
                en.prove(st, T.cmp("eq", got, want), "packed value is the source entry minus the zero point, at the format's place",
                         "entry %d,%d" % (w, d))
                wide = T.sext(s, 32) if self.signed else T.zext(s, 32)
                tot = T.add(tot, T.sub(wide, C(32, self.zp)))
            got = en.load_scalar(st, Ptr(self.sm.sh.obj, C(en.pb, 4 * w)), ir.ity(32))
            en.prove(st, T.cmp("eq", got, tot), "sum of the slice accumulates the packed values", "slice %d" % w)
        en.reached.add("cover:end")
        return [(st, None)]

    def run_pack(self, side, order):
        en, st, v = self.setup(side, order)
        n, sw = T.var("n", 32, 0, 1 << 20), T.var("sw", 32, 0, 1 << 24)
        v["data"], v["sums"] = en.new_obj(st, "data"), en.new_obj(st, "sums")
        for x in ("src", "data", "sums"):
            en.objs[v[x].obj].meta = {"align": 1}
        en.objs[v["src"].obj].handler = Src(self.wm, v["stride"], self.kw, self.rs)
        self.dm = en.objs[v["data"].obj].handler = Rebase(en, st, T.scale(T.sext(n, en.pb), self.f[0] * self.f[1], True), "packed")
        self.sm = en.objs[v["sums"].obj].handler = Rebase(en, st, T.scale(T.sext(sw, en.pb), 4, True), "sums", elem=4)
        rets = en.run("@pk_%d%s" % (side, order), [v["src"], v["stride"], sw, n, v["alloc"]], st)
        return en, rets


def run_make(config, side, order, bdp=None, src=None):
    return Leaf(config, bdp, src).run_make(side, order)


def run_pack(config, side, order, bdp=None, src=None):
    return Leaf(config, bdp, src).run_pack(side, order)
