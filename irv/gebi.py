"""EightBitIntGemm (int mode): the product asked for is the caller's, the float variant converts exactly the result's own entries through
a scratch buffer that is large enough, and the global state is used under its lock only."""
from . import build, term as T
from .exec import Ptr, State, Stop, Undecided, Obj
from .loops import LoopEngine
from .gpack import pdiv

KEEP = (r"GemmContextC2Ev", r"GemmContextD2Ev", r"GemmContext[CD]\dEv")
I32 = lambda v: T.C(32, v)
M31 = (1 << 31) - 1
NS = "g:@_ZN8gemmlowp18eight_bit_int_gemm12_GLOBAL__N_114"


class Scr:
    """scratch memory: 32-bit cells, written by the product, read by the conversion"""

    def __init__(self, w):
        self.w = w

    def store(self, en, st, ob, p, v, n):
        raise Undecided("the entry point itself writes scratch memory")

    def load(self, en, st, ob, p, n, ty):
        w = self.w
        acc = st.ghost.get("acc")
        if acc is None or acc[0] != p.obj:
            en.prove(st, T.FALSE, "accumulators read were produced by this call", "%r" % (p,))
            raise Stop()
        e = T.sub(p.off, acc[1], True)
        i, rest = w.ij(st, e, acc[4])
        mi, mj = (acc[2], acc[3]) if acc[5] else (acc[3], acc[2])
        w.req(st, T.band(T.cmp("sge", i, T.C(i.w, 0)), T.cmp("slt", i, T.sext(mi, i.w)), T.cmp("sge", rest, T.C(i.w, 0)),
                         T.cmp("slt", rest, T.sext(mj, i.w))), "accumulators read belong to the product")
        x = T.fresh("acc", 32)
        w.accs[x.single.id] = ((i, rest) if acc[5] else (rest, i)) + (x,)
        return x


class Dst:
    def __init__(self, w):
        self.w = w

    def load(self, en, st, ob, p, n, ty):
        raise Undecided("the result is read")

    def store(self, en, st, ob, p, v, n):
        w, V, ty32 = self.w, self.w.v, self.w.tf32
        i, j = w.ij(st, T.sub(p.off, V["c"].off, True), V["ldc"])
        if not w.tc:
            i, j = j, i
        z = T.C(i.w, 0)
        w.req(st, T.band(T.cmp("sge", i, z), T.cmp("slt", i, T.sext(V["m"], i.w)), T.cmp("sge", j, z), T.cmp("slt", j, T.sext(V["n"], i.w))),
              "only entries of the result are written")
        ids = [x for x in w.vars(v) if x in w.accs]
        if len(ids) != 1:
            raise Undecided("stored value is not a function of one accumulator")
        a = w.accs[ids[0]]
        w.req(st, T.band(T.cmp("eq", a[0], i), T.cmp("eq", a[1], j)), "an entry is converted from its own accumulator")
        want = en.fpop("fmul", [en.cast("sitofp", a[2], w.ti32, ty32, st, ()), V["co"]], ty32)
        if not en.same(v, want):
            raise Undecided("conversion is not float(accumulator) * c_offset")
        i, j = [T.E(32, T.trunc(x, 32).t, True) for x in (i, j)]      # entries of the result: they fit
        en.hints.append([(i, T.add(i, T.C(i.w, 1), True), T.sext(V["I"], i.w)), (j, T.add(j, T.C(i.w, 1), True), T.sext(V["J"], i.w))])
        cov = T.band(T.cmp("eq", i, T.sext(V["I"], i.w)), T.cmp("eq", j, T.sext(V["J"], i.w)))
        st.ghost["tgt"] = T.add(st.ghost["tgt"], T.ite(cov, I32(1), I32(0)), True)
        return


class Ebi:
    def __init__(self, config):
        self.mod = build.module("gemm_ebi.cc", config, keep=KEEP)
        h = {n: self.rec(n) for n in ("g_mat", "g_depth", "g_gemm")}
        h.update({"g_end": self.h_end, "pthread_mutex_lock": self.h_lock, "pthread_mutex_unlock": self.h_unlock, "pthread_mutex_init": self.h_zero,
                  "__cxa_atexit": self.h_zero, "*GemmContextC": self.h_ctor, "*GemmContextD": self.h_dtor, "_Znw*": self.h_new, "_Zna*": self.h_newa,
                  "_ZdlPv": self.h_del, "_ZdaPv": self.h_del, "_ZdlPv*": self.h_del, "_ZdaPv*": self.h_del})
        self.en = LoopEngine(self.mod, hooks=h)
        self.en.tracked = ["tgt"]
        self.accs = {}
        from .ir import Ty
        self.ti32, self.tf32 = Ty("int", n=32), Ty("float")

    # ---------------------------------------------------------------- helpers
    def req(self, st, b, name):
        self.en.prove(st, b, name, self.name)
        st.assume(b)

    def ij(self, st, e, stride):
        """byte offset -> (index times the stride, rest), in elements"""
        q, r = {}, {}
        for m, c in e.t.items():
            if c % 4:
                raise Undecided("misaligned 32-bit access")
            q[m] = c // 4
        e = T.E(e.w, q, True)
        return pdiv(e, T.sext(stride, e.w))

    def vars(self, v):
        out = set()

        def go(x):
            if isinstance(x, T.E):
                for m in x.t:
                    for i in m:
                        if i in out:
                            continue
                        out.add(i)
                        a = T.A(i)
                        for y in (a.args if a is not None else ()):
                            go(y)
        go(v)
        return out

    def rec(self, n):
        def h(en, st, a, I):
            self.locked(st, n)
            st.ghost["ev"] = st.ghost["ev"] + ((n[2:], tuple(a)),)
            if n == "g_gemm":
                r = self.product(st)
                if r:
                    return [(x, None) for x in r]
            return [(st, None)]
        return h

    def locked(self, st, what):
        self.en.prove(st, T.bconst(st.ghost["lock"] is not None), "global state is used with the lock held", "%s %s" % (self.name, what))

    def h_zero(self, en, st, a, I):
        return [(st, I32(0))]

    def h_lock(self, en, st, a, I):
        en.prove(st, T.bconst(st.ghost["lock"] is None), "the lock is taken once", self.name)
        en.prove(st, T.bconst(isinstance(a[0], Ptr) and "15EightBitIntGemm" in a[0].obj), "the interface's own lock is taken", "%s %r" % (self.name, a[0]))
        st.ghost["lock"] = ("held", a[0].obj)
        return [(st, I32(0))]

    def h_unlock(self, en, st, a, I):
        en.prove(st, T.bconst(st.ghost["lock"] == ("held", a[0].obj)), "the lock held is released", self.name)
        st.ghost["lock"] = None
        return [(st, I32(0))]

    def h_ctor(self, en, st, a, I):
        self.ctors += 1
        st.ghost["ctx"] = ("obj", a[0].obj)
        return [(st, None)]

    def h_dtor(self, en, st, a, I):
        st.ghost["ctxdead"] = st.ghost.get("ctxdead", ()) + (a[0].obj,)
        return [(st, None)]

    def h_new(self, en, st, a, I):
        return [(st, en.new_obj(st, "heap", size=a[0].const, meta={"align": 16}))]

    def h_newa(self, en, st, a, I):
        p = en.new_obj(st, "scr", size=a[0], meta={"align": 16})
        en.objs[p.obj].handler = Scr(self)
        self.sizes[p.obj] = a[0]
        return [(st, p)]

    def h_del(self, en, st, a, I):
        if isinstance(a[0], Ptr):
            st.ghost["del"] = st.ghost.get("del", ()) + (a[0].obj,)
        return [(st, None)]

    # ---------------------------------------------------------------- the product asked for
    def product(self, st):
        en, v = self.en, self.v
        ev = st.ghost["ev"]
        z = I32(0)
        en.prove(st, T.bconst(len(ev) == 5), "one product per call", "%s %d" % (self.name, len(ev)))
        if len(ev) != 5:
            raise Stop()
        mats, dep, g = [e[1] for e in ev[:3]], ev[3][1], ev[4][1]
        row = lambda t: I32(self.row if t else 1 - self.row)
        f = self.what == "f"
        for (what, order, data, r, c, s, es), (t, p, R, C, S, n, ez) in zip(mats, (
                (self.ta, v["a"], v["m"], v["k"], v["lda"], "a", 1), (self.tb, v["b"], v["k"], v["n"], v["ldb"], "b", 1),
                (self.tc, None if f else v["c"], v["m"], v["n"], v["ldc"], "c", 4 if f else 1))):
            en.prove(st, T.cmp("eq", order, row(t)), "matrix %s is column-major unless transposed" % n, self.name)
            en.prove(st, T.band(T.cmp("eq", r, R), T.cmp("eq", c, C), T.cmp("eq", s, S), T.cmp("eq", es, I32(ez))), "shape and leading dimension of matrix %s" % n, self.name)
            if p is not None:
                ok = isinstance(data, Ptr) and data.obj == p.obj
                en.prove(st, T.cmp("eq", data.off, p.off) if ok else T.FALSE, "matrix %s is the caller's" % n, self.name)
        en.prove(st, T.band(*[T.cmp(o, x, I32(y)) for o, x, y in zip(("sle", "sge") * 2, dep, (0, 255, 0, 255))]), "operands of any 8-bit value are allowed", self.name)
        en.prove(st, T.bconst(isinstance(g[0], Ptr) and ("obj", g[0].obj) == st.ghost["ctx"]), "the global context is used", self.name)
        ex = [I32(0 if f else 2), v["ao"], v["bo"]] + ([] if f else [v["co"], v["cm"], v["cs"]])
        for x, y, n in zip(g[1:], ex, ("output pipeline", "lhs offset", "rhs offset", "result offset", "result multiplier", "result shift")):
            en.prove(st, T.cmp("eq", x, y), "the product uses the caller's %s" % n, self.name)
        en.reached.add("cover:product")
        if f:
            data = mats[2][2]
            ne = T.band(*[T.cmp("sgt", v[x], z) for x in "mnk"])
            s1 = st.fork()
            s1.assume(ne)
            if not en.feas(s1):
                return
            if not isinstance(data, Ptr) or data.obj not in self.sizes:
                raise Undecided("accumulators are not in scratch memory: %r %r" % (data, list(self.sizes)))
            span = T.sext(T.add(T.sub(T.mul(v["m"] if self.tc else v["n"], v["ldc"], True), v["ldc"], True), v["n"] if self.tc else v["m"], True), en.pb)
            size = self.sizes[data.obj]
            end = T.add(data.off, T.scale(span, 4, True), True)
            size = T.zext(size, end.w) if size.w < end.w else size
            en.prove(st, T.bor(T.bnot(ne), T.band(T.cmp("sge", data.off, T.C(en.pb, 0)), T.cmp("sle", end, size))), "scratch memory holds the whole result", self.name)
            en.prove(st, T.bconst(data.obj not in st.ghost.get("del", ())), "scratch memory in use is not freed", self.name)
            # an empty product writes nothing
            s2 = st.fork()
            s2.assume(T.bnot(ne))
            out = []
            if en.feas(s2):
                out.append(s2)
            st.assume(ne)
            st.ghost["acc"] = (data.obj, data.off, v["m"], v["n"], v["ldc"], self.tc)
            return [st] + out

    def h_end(self, en, st, a, I):
        v = getattr(self, "v", None)
        en.prove(st, T.bconst(st.ghost["lock"] is None), "the lock is released on return", self.name)
        en.reached.add("cover:end")
        if self.what in ("u8", "f"):
            empty = T.bor(*[T.cmp("eq", v[n], I32(0)) for n in "mnk"])
            if not st.ghost["ev"]:
                en.prove(st, empty, "only an empty product is skipped", self.name)
                return [(st, None)]
        if self.what == "f":
            inside = T.band(T.cmp("slt", v["I"], v["m"]), T.cmp("slt", v["J"], v["n"]), T.bnot(empty))
            en.prove(st, T.cmp("eq", st.ghost["tgt"], T.ite(inside, I32(1), I32(0))), "every entry of a non-empty result is written exactly once", self.name)
        return [(st, None)]

    # ---------------------------------------------------------------- cases
    def glob(self, st, name, val):
        en = self.en
        k = [g for g in self.mod.globals if ("14" + name) in g]
        if len(k) != 1:
            raise Undecided("global %s not found" % name)
        p = Ptr("g:" + k[0], T.C(en.pb, 0))
        en.init_global(p.obj, st)
        if val is not None:
            st.wmem(p.obj)[0] = (val, en.pb // 8)
        return p

    def const(self, f):
        (s, r), = self.en.run("@" + f, [], State())
        return r.const

    def start(self, ctx, scr):
        en = self.en
        st = State()
        st.ghost.update({"ev": (), "lock": None, "tgt": I32(0), "ctx": None})
        self.sizes = {}
        self.ctors = 0
        if ctx:
            p = en.new_obj(st, "ctx", size=1 << 20, meta={"align": 16})
            self.glob(st, "global_context", p)
            st.ghost["ctx"] = ("obj", p.obj)
        if scr:
            # every reachable state of the scratch memory: what AssureSize(x) leaves, for any x
            outs = en.run("@ebi_prep", [T.var("scr_size", 32, 1, M31 - 64)], st)
            if len(outs) != 1:
                raise Undecided("scratch preparation forks")
            st = outs[0][0]
        return st

    def run_state(self):
        """SetMaxNumThreads and FreePersistentResources"""
        en = self.en
        rets = []
        self.what = "state"
        for ctx in (0, 1):
            self.name = "SetMaxNumThreads, %s context" % ("old" if ctx else "new")
            st = self.start(ctx, 0)
            n = T.var("threads", 32)
            rs = en.run("@ebi_threads", [n], st)
            for s, _ in rs:
                (s, c), = en.run("@ebi_ctx", [], s)
                en.prove(s, T.bconst(isinstance(c, Ptr) and ("obj", c.obj) == s.ghost["ctx"]), "one global context", self.name)
                (s, t), = en.run("@ebi_get_threads", [c], s)
                en.prove(s, T.cmp("eq", t, n), "the thread limit is that of the global context", self.name)
            rets += rs
        for ctx in (0, 1):
            for scr in (0, 1):
                self.name = "FreePersistentResources, %s context, %s scratch" % (("no", "old")[ctx], ("no", "old")[scr])
                st = self.start(ctx, scr)
                (st, c), = en.run("@ebi_ctx", [], st)
                (st, h), = en.run("@ebi_scr", [], st)
                own = set(self.sizes) | {p.obj for p, u in ((c, ctx), (h, scr)) if u}
                rs = en.run("@ebi_free", [], st)
                for s, _ in rs:
                    for f in ("@ebi_ctx", "@ebi_scr"):
                        (s, p), = en.run(f, [], s)
                        en.prove(s, T.bconst(isinstance(p, Ptr) and p.obj == "null"), "no reference to freed state remains", self.name + f)
                    d = s.ghost.get("del", ())
                    en.prove(s, T.bconst(set(d) == own and len(d) == len(own)), "every persistent resource is freed exactly once", "%s %r %r" % (self.name, d, own))
                    en.prove(s, T.bconst(s.ghost.get("ctxdead", ()) == ((c.obj,) if ctx else ())), "the global context is destroyed", self.name)
                rets += rs
        return en, rets

    def run(self, what):
        en = self.en
        if what == "state":
            return self.run_state()
        self.what = what
        self.row = self.const("k_row")
        bits = [self.const("k_a8b8"), self.const("k_a5b7")]
        rets = []
        for t in range(8):
            self.ta, self.tb, self.tc = t & 1, (t >> 1) & 1, (t >> 2) & 1
            for ctx in (0, 1):
                for scr in ((0, 1) if what == "f" else (0,)):
                    if what == "f" and ctx != scr and t:
                        continue
                    for bd in bits:
                        self.name = "transpose %d%d%d %s context, %s scratch, depth setting %d" % (self.ta, self.tb, self.tc, "old" if ctx else "new", "old" if scr else "new", bd)
                        st = self.start(ctx, scr)
                        v = self.v = {}
                        for n in "mnk":
                            v[n] = T.var(n, 32, 0, M31 - 64)
                        for n in ("lda", "ldb", "ldc"):
                            v[n] = T.var(n, 32, 1, M31)
                        for n in ("ao", "bo", "co", "cm", "cs"):
                            v[n] = T.var(n, 32)
                        for n in "IJ":
                            v[n] = T.var("t" + n, 32, 0, M31 - 64)
                        for n in "abc":
                            v[n] = en.new_obj(st, n)
                            en.objs[v[n].obj].meta = {"align": 1}
                        B = T.bconst
                        head = [B(self.ta), B(self.tb), B(self.tc), v["m"], v["n"], v["k"], v["a"], v["ao"], v["lda"], v["b"], v["bo"], v["ldb"], v["c"]]
                        if what == "u8":
                            rets += en.run("@ebi_u8", head + [v["co"], v["cm"], v["cs"], v["ldc"], I32(bd)], st)
                        else:
                            en.objs[v["c"].obj].handler = Dst(self)
                            v["co"] = T.var("cof", 32)
                            st.assume(T.cmp("sle", v["n" if self.tc else "m"], v["ldc"]))
                            span = T.mul(v["m" if self.tc else "n"], v["ldc"], True)
                            st.assume(T.cmp("sle", span, I32((1 << 29) - 64)))
                            # arithmetic: x >= 1 implies x * ldc >= ldc; x == 0 implies x * ldc == 0
                            x = v["m" if self.tc else "n"]
                            st.assume(T.bor(T.cmp("eq", x, I32(0)), T.cmp("sge", span, v["ldc"])))
                            st.assume(T.bor(T.cmp("sgt", x, I32(0)), T.cmp("eq", span, I32(0))))
                            rets += en.run("@ebi_f", head + [v["co"], v["ldc"], I32(bd)], st)
        return en, rets


def run_ebi(config, what):
    return Ebi(config).run(what)
