"""Public entry points down to MultiThreadGemm: an empty product touches nothing; otherwise the driver is asked for exactly the caller's
product, or for its transpose (operands swapped and transposed, offsets swapped, per-row stages made per-column and vice versa)."""
from . import build, term as T, solve
from .exec import Engine, Ptr, State, Obligation, Stop

STAGES = {   # pipeline -> [(kind, scalar arguments, [(vector, along)])]; along: r per row (Col vector), c per column
    0: [], 1: [(3, (), [("v1", "r")]), (5, ("a", "b", "c"), []), (7, ("e", "f"), []), (9, (), [])],
    2: [(3, (), [("v1", "c")]), (2, ("a",), [("v2", "r"), ("v3", "r")]), (11, (), [])],
    3: [(1, ("a",), [("v1", "c"), ("v2", "c")]), (9, (), [])],
    4: [(1, ("a",), [("v1", "r"), ("v2", "r")]), (9, (), [])],
    5: [(3, (), [("v1", "r")]), (3, (), [("v2", "c")]), (6, ("a", "b", "c"), []), (7, ("e", "f"), []), (8, ("b", "a"), []), (9, (), [])],
    6: [(2, ("a",), [("v2", "c"), ("v3", "c")])],
    7: [(4, ("a", "b", "c"), []), (7, ("e", "f"), []), (3, (), [("v2", "c")]), (3, (), [("v1", "r")]), (9, (), [])],
    "l": [(4, ("a", "b", "c"), []), (9, (), [])]}


class Disp:
    def __init__(self, config, bdp=None):
        self.mod = build.module("gemm_dispatch.cc", config)
        self.en = Engine(self.mod, "int", hooks={n: self.rec(n) for n in ("g_mat", "g_vec", "g_dup", "g_stage", "g_call")})
        self.en.hooks["g_end"] = self.h_end

    def rec(self, n):
        def h(en, st, a, I):
            st.ghost["ev"] = st.ghost["ev"] + ((n[2:], tuple(a)),)
            return [(st, None)]
        return h

    def const(self, f):
        (s, r), = self.en.run("@" + f, [], State())
        return r.const

    def expected(self, tr):
        v, (L, R, D) = self.v, self.ords
        I = lambda x: T.C(32, x)
        row = lambda o: I(self.row if o else 1 - self.row)
        shape = lambda along: I(self.vrow if (along == "c") != tr else 1 - self.vrow)
        ev = [("call", (v["ctx"], None))]
        if not tr:
            ev += [("mat", (I(0), row(L), v["l"], v["rows"], v["depth"], v["ls"])), ("mat", (I(1), row(R), v["r"], v["depth"], v["cols"], v["rs"])),
                   ("mat", (I(2), row(D), v["d"], v["rows"], v["cols"], v["ds"]))]
        else:
            ev += [("mat", (I(0), row(not R), v["r"], v["cols"], v["depth"], v["rs"])), ("mat", (I(1), row(not L), v["l"], v["depth"], v["rows"], v["ls"])),
                   ("mat", (I(2), row(not D), v["d"], v["cols"], v["rows"], v["ds"]))]
        for k in (0, 1):
            along = "r" if (k == 0) != tr else "c"
            n = v["rows"] if along == "r" else v["cols"]
            if self.vec:
                ev.append(("vec", (I(k), I(1 - self.vrow if k == 0 else self.vrow), v["lo" if along == "r" else "ro"], n)))
            else:
                ev.append(("dup", (I(k), v["lov" if along == "r" else "rov"], n)))
        for kind, sc, vs in STAGES[self.pipe]:
            x = [v[s] for s in sc] + [I(0)] * (3 - len(sc))
            ev.append(("stage", (I(kind),) + tuple(x)))
            for i, (nm, along) in enumerate(vs):
                ev.append(("vec", (I(2 + i), shape(along), v[nm], v["rows"] if along == "r" else v["cols"])))
        return ev

    def match(self, st, got, want):
        """condition under which the two calls are the same (None: never)"""
        if len(got) != len(want):
            return None
        c = []
        for (n, a), (m, b) in zip(got, want):
            if n != m:
                return None
            for x, y in zip(a, b):
                if y is None:
                    continue
                if isinstance(y, Ptr):
                    if not isinstance(x, Ptr) or x.obj != y.obj:
                        return None
                    c.append(T.cmp("eq", x.off, y.off))
                elif not isinstance(x, T.E):
                    return None
                else:
                    c.append(T.cmp("eq", x, y))
        return T.band(*c) if c else T.TRUE

    def h_end(self, en, st, a, I):
        v = self.v
        ev = st.ghost["ev"]
        z = T.C(32, 0)
        empty = T.bor(*[T.cmp("eq", v[n], z) for n in ("rows", "cols", "depth")])
        en.reached.add("cover:end")
        if not ev:
            en.prove(st, empty, "only an empty product is skipped", self.name)
            en.reached.add("cover:skip")
            return [(st, None)]
        en.reached.add("cover:call")
        en.prove(st, T.bnot(empty), "an empty product reaches no block-level code", self.name)
        m = [x for x in (self.match(st, ev, self.expected(t)) for t in (False, True)) if x is not None]
        en.prove(st, T.bor(*m) if m else T.FALSE, "the driver is asked for the caller's product or its transpose", self.name)
        return [(st, None)]

    def run(self):
        en = self.en
        self.row, self.vrow = self.const("k_row"), self.const("k_vrow")
        names = "ctx l r d rows depth cols ls rs ds lo ro lov rov v1 v2 v3 v4 a b c e f".split()
        ptr = {"ctx", "l", "r", "d", "lo", "ro", "v1", "v2", "v3", "v4"}
        rets = []
        for L in (0, 1):
            for R in (0, 1):
                for D in (0, 1):
                    for pipe in list(range(8)) + ["l"]:
                        for vec in ((0, 1) if pipe != "l" else (0,)):
                            self.ords, self.pipe, self.vec = (L, R, D), pipe, vec
                            self.name = "dl_%d%d%d" % (L, R, D) if pipe == "l" else "dg_%d%d%d%d%d" % (L, R, D, pipe, vec)
                            st = State()
                            st.ghost["ev"] = ()
                            v = self.v = {}
                            for n in names:
                                if n in ptr:
                                    v[n] = en.new_obj(st, n)
                                    en.objs[v[n].obj].meta = {"align": 1}
                                elif n in ("rows", "depth", "cols"):
                                    v[n] = T.var("d" + n, 32, 0, (1 << 31) - 1)
                                else:
                                    v[n] = T.var("d" + n, 32)
                            rets += en.run("@" + self.name, [v[n] for n in names], st)
        return en, rets


def run_dispatch(config):
    return Disp(config).run()
