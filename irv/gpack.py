"""PackLhs/PackRhs (int mode): for every source block and blocking, every entry of the block is packed exactly once, by a
register-block Pack whose source is that register block of the source, at the address the packed layout prescribes, with the
sums of its own rows (columns) zeroed before and updated once.
MakeCompleteSrc, UseCompleteSrcInPlace and Pack are used through their contracts (proved bit-precisely by gemm_leaf.cc)."""
from . import asm, build, term as T, solve
from .exec import Ptr, Stop, Undecided, State
from .loops import LoopEngine

I32 = lambda v: T.C(32, v)
KEEP = ("15MakeCompleteSrcE", "21UseCompleteSrcInPlaceE", "PackingRegisterBlock.*4PackE", "9Allocator10GetPointerI", "9Allocator7ReserveI", "10PrefetchL1E")
M31 = (1 << 31) - 1


def pdiv(e, by):
    """polynomial quotient of e by the single-monomial (times constant) expression by: the monomials it divides"""
    (mb, cb), = by.t.items()
    q, r = {}, {}
    for m, c in e.t.items():
        mm = list(m)
        ok = c % cb == 0
        for i in mb:
            if i in mm:
                mm.remove(i)
            else:
                ok = False
        if ok:
            q[tuple(mm)] = c // cb
        else:
            r[m] = c
    return T.E(e.w, q, True), T.E(e.w, r, True)


def to32(e):
    """the 32-bit form of a mathematical 64-bit polynomial built from sign-extended 32-bit values"""
    if e.w == 32:
        return e
    r = I32(0)
    for m, c in e.t.items():
        p = I32(c)
        for i in m:
            a = T.A(i)
            if a.op == "sext" and a.args[0].w == 32:
                x = a.args[0]
            elif a.op == "ite":
                x = T.ite(a.args[0], to32(a.args[1]), to32(a.args[2]))
            else:
                raise Undecided("index %r is not built from ints" % (e,))
            p = T.mul(p, x, True)
        r = T.add(r, p, True)
    return r


def layout(en, st, v, kw, w, d, q=None):
    """address of register block (w, d) in a packed block: runs of l1_depth, each with all widths; q = d div l1_depth"""
    l1d, l2d, l2w = v["l1d"], v["l2d"], v["l2w"]
    if q is None:
        q, rest = pdiv(d, l1d)
        ok = T.band(T.cmp("sge", rest, I32(0)), T.cmp("slt", rest, l1d))
        if not en.valid(st, ok):
            q = T.fresh("q", 32, 0, M31)
            lq = T.mul(l1d, q, True)
            st.assume(T.band(T.cmp("sle", lq, d), T.cmp("slt", d, T.add(lq, l1d, True))))
    dq = T.mul(l1d, q, True)
    left = T.sub(l2d, dq, True)
    run = T.ite(T.cmp("sle", l1d, left), l1d, left)
    p = T.add(T.mul(l2w, dq, True), T.mul(w, run, True), True)
    return T.add(p, T.scale(T.sub(d, dq, True), kw, True), True)


class Sums:
    """the sums buffer: only its clearing is visible at this level"""

    def __init__(self, pk):
        self.pk = pk

    def memset(self, en, st, d, v, n):
        pk = self.pk
        pk.req(st, T.bconst(v.const == 0), "sums are cleared to zero")
        pk.req(st, T.cmp("eq", d.off, T.C(en.pb, 0)), "sums are cleared from the first")
        pk.req(st, T.cmp("sle", n, T.scale(T.sext(pk.v["l2w"], n.w), 4, True)), "clearing stays inside the sums")
        pk.req(st, T.cmp("sge", n, T.scale(T.sext(pk.width, n.w), 4, True)), "the sums of all slices are cleared")
        en.prove(st, T.bconst(st.ghost.get("packs", "no") == "no"), "sums are cleared before packing", "")
        st.ghost["cleared"] = "yes"


class Pack:
    def __init__(self, config, side, order, bdp=None, timeout=20):
        self.mod = build.module("gemm_pack.cc", config, defs="-DBDP=" + bdp if bdp else "", keep=KEEP)
        self.side, self.order = side, order
        self.en = LoopEngine(self.mod, hooks={
            "*9Allocator7ReserveI": self.h_reserve, "*9Allocator10GetPointerI": self.h_pointer, "g_built": lambda en, st, a, I: [(st, None)],
            "*21UseCompleteSrcInPlaceE": lambda en, st, a, I: self.h_src(st, a, True),
            "*15MakeCompleteSrcE": lambda en, st, a, I: self.h_src(st, a, False),
            "*4PackEP": self.h_pack, "*10PrefetchL1E": self.h_prefetch, "g_src": self.h_see, "g_end": self.h_end}, timeout=timeout)
        self.en.tracked = ["tgt"]
        # widthmajor: lhs row major or rhs column major
        self.wm = (side == 0) == (order == 1)

    def req(self, st, b, name):
        self.en.prove(st, b, name, "")
        st.assume(b)

    def h_prefetch(self, en, st, a, I):
        """frame contract, checked on the body: writes nothing, calls nothing but the prefetch instruction"""
        f = self.mod.funcs[I.x["callee"].v]
        for b in f.blocks.values():
            for i in b.ins:
                if i.op == "call" and i.x["callee"].k == "asm":
                    asm.no_effect(i.x["callee"].v)
                elif i.op in ("store", "atomicrmw", "cmpxchg", "invoke") or \
                        (i.op == "call" and not str(i.x["callee"].v).startswith(("@llvm.prefetch", "@llvm.lifetime", "@llvm.dbg"))):
                    raise Undecided("PrefetchL1 is not pure")
        return [(st, None)]

    def h_reserve(self, en, st, a, I):
        h, al, n = a
        nm = I.x["callee"].v
        ty = nm.split("7ReserveI")[1][0]
        obj = {"h": "data", "i": "sums"}.get(ty)
        if obj is None:
            raise Undecided("reservation of an unexpected type")
        if al.obj != self.v["alloc"].obj:
            self.en.prove(st, T.FALSE, "the given allocator is used", "")
        need = T.mul(self.v["l2w"], self.v["l2d"], True) if obj == "data" else self.v["l2w"]
        self.req(st, T.cmp("sge", n, T.sext(need, n.w)), "reserved %s hold the whole l2 block" % obj)
        k = T.fresh("handle", 32)
        self.handles[k.single.id] = obj
        m = st.wmem(h.obj)
        for o in [o for o in m if h.off.const <= o < h.off.const + en.pb // 8]:
            m.pop(o)
        m[h.off.const] = (k, 4)
        return [(st, None)]

    def h_pointer(self, en, st, a, I):
        h = a[1]
        r = st.mem.get(h.obj, {}).get(h.off.const)
        o = self.handles.get(r[0].single.id) if r is not None and r[0].single is not None else None
        if o is None:
            raise Undecided("handle not tracked")
        return [(st, self.v[o])]

    def h_src(self, st, a, inplace):
        self.inpl = inplace
        outs = self.en.run("@see_src_%d%d" % (self.side, self.order), [a[1]], st)
        res = []
        for s, _ in outs:
            s.ghost["blk"] = (a[0].obj, inplace) + s.ghost.pop("see")
            res.append((s, None))
        return res

    def h_see(self, en, st, a, I):
        st.ghost["see"] = tuple(a)
        return [(st, None)]

    def h_pack(self, en, st, a, I):
        v = self.v
        this, psb, w0 = a
        b = st.ghost.get("blk")
        en.prove(st, T.bconst(b is not None), "a source block is selected before packing", "")
        if b is None or b[0] == "havoc" or b[0] != this.obj:
            raise Undecided("source block not tracked")
        inpl, data, ws, ds, stride = b[1:]
        if not (isinstance(data, Ptr) and data.obj == v["src"].obj):
            en.prove(st, T.FALSE, "packed from the source matrix", "%r" % (data,))
            raise Stop()
        W, D = self.width, self.depth
        kw, rs = self.kw, self.kr
        self.req(st, T.cmp("eq", stride, v["stride"]), "source stride")
        e = data.off
        e32 = T.trunc(e, 32) if e.w > 32 else e
        w0s = w0
        if self.wm:
            d0 = T.sub(e, T.mul(T.sext(w0, e.w), T.sext(v["stride"], e.w), True), True)
        else:
            d0, rest = pdiv(T.sub(e, T.sext(w0, e.w), True), T.sext(v["stride"], e.w))
            if rest.t:
                raise Undecided("depth of the source block not recognised: %r at %r" % (e, w0))
        d0 = to32(d0)
        z = I32(0)
        self.req(st, T.band(T.cmp("sge", w0, z), T.cmp("sge", d0, z), T.cmp("slt", w0, W), T.cmp("slt", d0, D)),
                 "source block starts at the given width, inside the source")
        self.req(st, T.cmp("eq", T.div("srem", w0, I32(kw)), z), "width of a register block is a multiple of the kernel width")
        self.req(st, T.cmp("eq", T.div("srem", d0, I32(rs)), z), "depth of a register block is a multiple of the register size")
        left = T.sub(W, w0, True)
        self.req(st, T.cmp("eq", ws, T.ite(T.cmp("sle", I32(kw), left), I32(kw), left)), "source block width: all that is left, at most the kernel width")
        left = T.sub(D, d0, True)
        self.req(st, T.cmp("eq", ds, T.ite(T.cmp("sle", I32(rs), left), I32(rs), left)), "source block depth: all that is left, at most the register size")
        if inpl:
            self.req(st, T.band(T.cmp("eq", ws, I32(kw)), T.cmp("eq", ds, I32(rs))), "used in place only when complete")
        en.prove(st, T.bconst(st.ghost.get("cleared", "no") == "yes"), "sums are cleared before packing", "")
        st.ghost["packs"] = "yes"
        out = []
        for s, p in en.run("@see_pos_%d" % self.side, [psb], st):
            if not (isinstance(p, Ptr) and p.obj == v["data"].obj):
                en.prove(s, T.FALSE, "packed into the data buffer", "%r" % (p,))
                continue
            s2 = s.fork()
            pos = layout(en, s2, v, kw, w0, d0)
            en.prove(s2, T.cmp("eq", p.off, T.sext(pos, en.pb)), "packed at the layout's address of this register block", "")
            for s3, p3 in en.run("@see_sums_%d" % self.side, [psb], s):
                if not (isinstance(p3, Ptr) and p3.obj == v["sums"].obj):
                    en.prove(s3, T.FALSE, "sums go to the sums buffer", "%r" % (p3,))
                    continue
                self.req(s3, T.cmp("eq", p3.off, T.C(en.pb, 0)), "sums indexed from the first slice")
                self.cover(s3, w0, kw, d0, rs)
                s3.ghost["blk"] = None
                for s4, _ in en.run("@adv_%d" % self.side, [psb], s3):
                    out.append((s4, None))
        if not out:
            raise Stop()
        return out

    def cover(self, st, w, KW, d, RS):
        en, v = self.en, self.v
        w1, d1 = T.add(w, I32(KW), True), T.add(d, I32(RS), True)
        en.hints.append([(d, d1, v["D"]), (w, w1, v["W"])])
        cov = T.band(T.cmp("sle", w, v["W"]), T.cmp("slt", v["W"], w1), T.cmp("sle", d, v["D"]), T.cmp("slt", v["D"], d1))
        st.ghost["tgt"] = T.add(st.ghost["tgt"], T.ite(cov, I32(1), I32(0)), True)

    def h_end(self, en, st, a, I):
        en.prove(st, T.cmp("eq", st.ghost["tgt"], I32(1)), "every entry of the source block is packed exactly once", "")
        en.prove(st, T.bconst(st.ghost.get("cleared", "no") == "yes"), "sums are cleared", "")
        en.reached.add("cover:end")
        return [(st, None)]

    def const(self, f):
        en = self.en
        (s, r), = en.run(f, [], State())
        return r.const

    def run(self):
        en = self.en
        self.handles = {}
        self.kw, self.kr = self.const("@kw_%d" % self.side), self.const("@kr_%d" % self.side)
        st = State()
        v = self.v = {}
        for n in ("rows", "cols"):
            v[n] = T.var("p" + n, 32, 1, M31)
        v["stride"] = T.var("stride", 32, 1, M31)
        for n in ("W", "D"):
            v[n] = T.var("t" + n, 32, 0, M31)
        for n in ("src", "alloc", "data", "sums"):
            v[n] = en.new_obj(st, n)
            en.objs[v[n].obj].meta = {"align": 1}
        en.objs[v["sums"].obj].handler = Sums(self)

        def mult(n, k):
            e = T.scale(T.var(n + "_q", 32, 1, M31 // k), k, True)
            return e
        kw, kr = self.kw, self.kr
        mine, other = ("r", "c") if self.side == 0 else ("c", "r")
        v["l1w"], v["l2w"] = mult("l1w", kw), mult("l2w", kw)
        v["l1d"], v["l2d"] = mult("l1d", kr), mult("l2d", kr)
        v["l1o"], v["l2o"] = T.var("l1o", 32, 1, M31), T.var("l2o", 32, 1, M31)
        self.width, self.depth = (v["rows"], v["cols"]) if self.side == 0 else (v["cols"], v["rows"])
        st.assume(T.cmp("sle", self.width, v["l2w"]))
        st.assume(T.cmp("sle", self.depth, v["l2d"]))
        st.assume(T.cmp("slt", v["W"], self.width))
        st.assume(T.cmp("slt", v["D"], self.depth))
        st.ghost["tgt"] = I32(0)
        l = [("l1w", "l1o", "l1d", "l2w", "l2o", "l2d"), ("l1o", "l1w", "l1d", "l2o", "l2w", "l2d")][self.side]
        args = [v[n] for n in ("src", "rows", "cols", "stride", "alloc") + l]
        rets = en.run("@pk_%d%d" % (self.side, self.order), args, st)
        return en, rets


def run_pack(config, side, order, bdp=None, timeout=20):
    return Pack(config, side, order, bdp, timeout).run()
