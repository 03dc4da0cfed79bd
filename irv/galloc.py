"""Allocator (int mode): blocks of one commit cycle are aligned, disjoint and inside the storage, after any history; the storage is freed once."""
from . import build, term as T, solve
from .exec import Engine, Ptr, State, Stop, Undecided, Obligation

KEEP = (r"19RoundUpToPowerOfTwoI",)
CASES = ["10", "11", "21", "23", "34", "31", "45", "51", "56"]


class Al:
    def __init__(self, config):
        self.mod = build.module("alloc.cc", config, keep=KEEP)
        self.en = Engine(self.mod, "int", hooks={"*19RoundUpToPowerOfTwoI": self.h_pow2, "posix_memalign": self.h_alloc, "free": self.h_free,
                                                 "g_cycle": self.h_cycle, "g_block": self.h_block, "g_end": self.h_end, "fprintf": self.h_zero})

    def h_zero(self, en, st, a, I):
        return [(st, T.C(32, 0))]

    def h_pow2(self, en, st, a, I):
        """contract, proved by run_pow2: result >= argument"""
        n = a[0]
        en.prove(st, T.cmp("sge", n, T.C(n.w, 1)), "RoundUpToPowerOfTwo of a positive size", self.name)
        r = T.fresh("pow2", n.w, 1, 1 << (n.w - 2))
        st.assume(T.cmp("sge", r, n))
        return [(st, r)]

    def h_alloc(self, en, st, a, I):
        pp, al, size = a
        if al.const is None:
            raise Undecided("symbolic alignment")
        p = en.new_obj(st, "store", size=size, meta={"align": al.const})
        st.ghost["live"] = st.ghost["live"] + (p.obj,)
        self.size[p.obj] = size
        st.wmem(pp.obj)[pp.off.const] = (p, en.pb // 8)
        return [(st, T.C(32, 0))]

    def h_free(self, en, st, a, I):
        p = a[0]
        if isinstance(p, Ptr) and p.obj == "null":
            return [(st, None)]
        ok = isinstance(p, Ptr) and p.obj in st.ghost["live"] and p.off.const == 0
        en.prove(st, T.bconst(ok), "only live storage is freed", "%s %r" % (self.name, p))
        if ok:
            st.ghost["live"] = tuple(x for x in st.ghost["live"] if x != p.obj)
        return [(st, None)]

    def h_cycle(self, en, st, a, I):
        st.ghost["blocks"] = ()
        return [(st, None)]

    def h_block(self, en, st, a, I):
        i, p, n = a
        if not isinstance(p, Ptr) or p.obj not in self.size:
            en.prove(st, T.FALSE, "block lies in storage", "%s %r" % (self.name, p))
            raise Stop()
        z = T.C(en.pb, 0)
        end = T.add(p.off, n, True)
        en.prove(st, T.bconst(p.obj in st.ghost["live"]), "block lies in live storage", self.name)
        al = (en.objs[p.obj].meta or {}).get("align", 1)
        en.prove(st, T.bconst(al % self.line == 0), "storage is cache-line aligned", self.name)
        en.prove(st, T.cmp("eq", T.bitop("and", p.off, T.C(en.pb, self.line - 1)), z), "block starts at a cache line", self.name)
        en.prove(st, T.band(T.cmp("sge", p.off, z), T.cmp("sle", end, self.size[p.obj])), "block lies inside the storage", self.name)
        for j, q, e in st.ghost["blocks"]:
            if q.obj == p.obj:
                en.prove(st, T.bor(T.cmp("sle", end, q.off), T.cmp("sle", e, p.off), T.cmp("eq", n, z), T.cmp("eq", e, q.off)), "blocks do not overlap", "%s %s,%s" % (self.name, j, i.const))
        st.ghost["blocks"] = st.ghost["blocks"] + ((i.const, p, end),)
        en.reached.add("cover:block")
        return [(st, None)]

    def h_end(self, en, st, a, I):
        en.prove(st, T.bconst(st.ghost["live"] == ()), "storage is not leaked", "%s %r" % (self.name, st.ghost["live"]))
        en.reached.add("cover:end")
        return [(st, None)]

    def const(self, f):
        (s, r), = self.en.run("@" + f, [], State())
        return r.const

    def run(self):
        en = self.en
        self.line = self.const("k_line")
        pb = en.pb
        M = 1 << (40 if pb == 64 else 27)
        rets = []
        for c in CASES + ["none"]:
            for hist in "fuv" if c != "none" else "n":
                st = State()
                st.ghost.update({"live": (), "blocks": ()})
                self.size = {}
                self.name = "al_%s%s" % (hist, c) if c != "none" else "al_none"
                args = [T.var("n%d" % i, pb, 1, M) for i in range(5)] + [T.var("x", pb, 1, M), T.var("y", pb, 1, M)]
                rets += en.run("@" + self.name, args if c != "none" else [], st)
        return en, rets


def run_alloc(config):
    return Al(config).run()


def run_pow2(config):
    mod = build.module("alloc.cc", config)
    en = Engine(mod, "bv")
    st = State()
    w = en.pb
    n = T.var("n", w)
    B = 1 << (w - 2)
    st.assume(T.band(T.cmp("sge", n, T.C(w, 1)), T.cmp("sle", n, T.C(w, B))))
    rs = en.run("@ob_pow2", [n], st)
    for s, r in rs:
        en.prove(s, T.cmp("sge", r, n), "RoundUpToPowerOfTwo(n) >= n", "")
        if w == 32:
            en.prove(s, T.cmp("eq", T.bitop("and", r, T.sub(r, T.C(w, 1))), T.C(w, 0)), "RoundUpToPowerOfTwo(n) is a power of two", "")
        en.prove(s, T.cmp("sle", r, T.C(w, B)), "RoundUpToPowerOfTwo(n) stays in range", "")
    en.reached.add("cover:end")
    return en, rs
