"""Register-block unpacking, bit-precisely (bv mode): UnpackResultBlock adds the offset terms to each accumulator and stores it at
its own place; the 8x8 store writes the transposed block.  Addresses are resolved by their polynomial form, so the result holds for
every stride and position."""
from . import build, ir, term as T, solve
from .exec import Engine, Ptr, Stop, Undecided, State, Obligation
from .gleaf import KEEP

C = T.C
PITCH = 1 << 12


class Grid:
    """a window of nmaj x nmin elements at a symbolic position of a matrix of symbolic stride (or of a vector, stride None)"""

    def __init__(self, en, st, base, stride, esz, nmaj, nmin, name, ro=True):
        self.base, self.stride, self.esz, self.nmaj, self.nmin, self.name, self.ro = base, stride, esz, nmaj, nmin, name, ro
        self.sh = en.new_obj(st, name, elem=esz, sym=True)
        self.touched = set()

    def cells(self, en, p, n, what):
        diff = T.sub(p.off, self.base, True)
        k = c = 0
        for m, v in diff.t.items():
            if not m:
                c = v
            elif self.stride is not None and m == (self.stride.single.id,):
                k = v
            else:
                raise Undecided("%s addressed at %r" % (self.name, p.off))
        h = 1 << (en.pb - 1)
        k, c = [(x + h) % (2 * h) - h for x in (k, c)]
        if k % self.esz or c % self.esz or not (0 <= k // self.esz < self.nmaj and 0 <= c and c + n <= self.nmin * self.esz):
            en.obls.append(Obligation("only the block's own entries are %s (%s)" % (what, self.name), "%d bytes at %d*stride%+d" % (n, k, c),
                                      "refuted", solve.Result("sat", {}), detail=""))
            raise Stop()
        return Ptr(self.sh.obj, C(en.pb, k // self.esz * PITCH + c))

    def load(self, en, st, ob, p, n, ty):
        q = self.cells(en, p, n, "read")
        return T.concat([en.load_scalar(st, Ptr(q.obj, C(en.pb, q.off.const + i)), ir.ity(8 * self.esz)) for i in range(0, n, self.esz)])

    def store(self, en, st, ob, p, v, n):
        if self.ro:
            en.obls.append(Obligation("inputs are not written (%s)" % self.name, "%r" % (p,), "refuted", solve.Result("sat", {}), detail=""))
            raise Stop()
        q = self.cells(en, p, n, "written")
        for i in range(0, n, self.esz):
            en.store_scalar(st, Ptr(q.obj, C(en.pb, q.off.const + i)), T.extract(v, 8 * i, 8 * self.esz), ir.ity(8 * self.esz))

    def get(self, en, st, maj, mnr):
        return en.load_scalar(st, Ptr(self.sh.obj, C(en.pb, maj * PITCH + mnr * self.esz)), ir.ity(8 * self.esz))

    def written(self, st):
        return {(o // PITCH, (o % PITCH) // self.esz) for o in st.mem.get(self.sh.obj, {})}


class LeafU:
    def __init__(self, config, bdp=None, timeout=60):
        self.mod = build.module("gemm_leaf.cc", config, defs="-DBDP=" + bdp if bdp else "", keep=KEEP)
        self.en = Engine(self.mod, "bv", timeout=timeout, hooks={"g_end": self.h_end})
        self.config = config

    def const(self, f):
        (s, r), = self.en.run("@" + f, [], State())
        return r.const

    def base(self, row, col, stride, esz, rowmajor=False):
        pb = self.en.pb
        r, c, s = [T.sext(x, pb) for x in (row, col, stride)]
        return T.scale(T.add(T.mul(r, s, True), c, True) if rowmajor else T.add(r, T.mul(c, s, True), True), esz, True)

    def grid(self, st, name, base, stride, esz, nmaj, nmin, ro=True):
        en = self.en
        p = en.new_obj(st, name)
        en.objs[p.obj].meta = {"align": 1}
        g = Grid(en, st, base, None if stride is None else T.sext(stride, en.pb), esz, nmaj, nmin, name, ro)
        en.objs[p.obj].handler = g
        self.g[name] = g
        return p

    def run_block(self, R, Cc, order, kind):
        en = self.en
        st = State()
        self.g = {}
        v = {n: T.var(n, 32) for n in ("l2r", "l2c", "lov", "rov", "depth", "srow", "scol", "rows", "cols", "ds", "grow", "gcol", "drow", "dcol", "nb")}
        self.v, self.shape, self.order, self.kind, self.what = v, (R, Cc), order, kind, "block"
        rm = order == "r"
        a = self.grid(st, "accumulators", self.base(v["srow"], v["scol"], v["l2r"], 4), v["l2r"], 4, Cc, R)
        vec = lambda n, i, k: self.grid(st, n, T.scale(T.sext(v[i], en.pb), 4, True), None, 4, 1, k)
        ls, rs = vec("lhs sums", "srow", R), vec("rhs sums", "scol", Cc)
        lo, ro = vec("lhs offsets", "srow", R), vec("rhs offsets", "scol", Cc)
        rb, cb = vec("row biases", "grow", R), vec("column biases", "gcol", Cc)
        d = self.grid(st, "result", self.base(v["drow"], v["dcol"], v["ds"], 4, rm), v["ds"], 4, R if rm else Cc, Cc if rm else R, ro=False)
        return en.run("@lu_%dx%d%s%s" % (R, Cc, order, kind), [a, v["l2r"], v["l2c"], ls, rs, lo, ro, v["lov"], v["rov"], v["depth"],
                      v["srow"], v["scol"], d, v["rows"], v["cols"], v["ds"], v["grow"], v["gcol"], v["drow"], v["dcol"], rb, cb, v["nb"]], st)

    def h_end(self, en, st, a, I):
        g, v = self.g, self.v
        R, Cc = self.shape
        rm = self.order == "r"
        full = {(i, j) if rm else (j, i) for i in range(R) for j in range(Cc)}
        en.prove(st, T.bconst(g["result"].written(st) == full), "exactly the block's entries are written", self.what)
        if g["result"].written(st) != full:
            raise Stop()
        for i in range(R):
            for j in range(Cc):
                got = g["result"].get(en, st, i if rm else j, j if rm else i)
                if self.what == "store":
                    want = g["buffer"].get(en, st, 0, j * 8 + i)
                    en.prove(st, T.cmp("eq", got, want), "8x8 block stored entry by entry", "entry %d,%d" % (i, j))
                    continue
                L = g["lhs offsets"].get(en, st, 0, i) if self.kind[0] == "v" else v["lov"]
                Ro = g["rhs offsets"].get(en, st, 0, j) if self.kind[1] == "v" else v["rov"]
                L, Ro = T.add(L, C(32, self.zl)), T.add(Ro, C(32, self.zr))
                ls, rs = g["lhs sums"].get(en, st, 0, i), g["rhs sums"].get(en, st, 0, j)
                want = T.add(T.add(g["accumulators"].get(en, st, j, i), T.mul(ls, Ro)), T.mul(T.add(rs, T.mul(Ro, v["depth"])), L))
                if self.kind == "ddb":
                    want = T.add(want, T.add(g["row biases"].get(en, st, 0, i), g["column biases"].get(en, st, 0, j)))
                    en.prove(st, T.cmp("eq", got, want), "output stages see the entry's own global row and column",
                             "%dx%d %s%s entry %d,%d" % (R, Cc, self.order, self.kind, i, j))
                    continue
                en.prove(st, T.cmp("eq", got, want), "stored value is the accumulator plus the offset terms of its row and column",
                         "%dx%d %s%s entry %d,%d" % (R, Cc, self.order, self.kind, i, j))
        en.reached.add("cover:end")
        return [(st, None)]

    def run_store(self, ty):
        en = self.en
        st = State()
        self.g = {}
        esz = {"u8": 1, "i8": 1, "i16": 2, "i32": 4}[ty]
        v = self.v = {n: T.var(n, 32) for n in ("rows", "cols", "ds", "drow", "dcol")}
        self.shape, self.order, self.what = (8, 8), "r", "store"
        b = self.grid(st, "buffer", C(en.pb, 0), None, esz, 1, 64)
        d = self.grid(st, "result", self.base(v["drow"], v["dcol"], v["ds"], esz, True), v["ds"], esz, 8, 8, ro=False)
        return en.run("@sf_" + ty, [b, d, v["rows"], v["cols"], v["ds"], v["drow"], v["dcol"]], st)

    def run(self):
        self.zl, self.zr = self.const("zp_0"), self.const("zp_1")
        rets = []
        for R, Cc in ((1, 1), (4, 1), (8, 1), (1, 4), (4, 4), (8, 4)):
            for order in "cr":
                for kind in ("vv", "dd", "vd", "dv", "ddb"):
                    rets += self.run_block(R, Cc, order, kind)
        for ty in ("u8", "i16", "i32") + (("i8",) if "@sf_i8" in self.mod.funcs else ()):
            rets += self.run_store(ty)
        return self.en, rets


def run_leafu(config, bdp=None):
    return LeafU(config, bdp).run()
