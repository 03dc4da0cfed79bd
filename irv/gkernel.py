"""The kernels: Run(dst, 1, col_stride, lhs, rhs, start_depth, run_depth) leaves in every entry (i, j) of its register block
    (start_depth == 0 ? 0 : old value) + sum over the cells k < run_depth/kDepth of sum_d lhs[k][i][d] * rhs[k][j][d]   (mod 2^32)
and writes nothing else, for every run_depth and stride.  A kernel may also add the cells up to the packed depth's round-up, which hold
zero padding.  Executed on the assembly text of the real kernel (kasm) for every number of cells by induction."""
from . import build, ir, term as T, solve, kasm
from .exec import Engine, Ptr, Stop, Undecided, State, Obligation
from .gleafu import Grid
from .loops import LoopEngine

C = T.C
SLACK = {"x86_avx2": {"rhs": 8}}


class Bytes:
    """a packed operand read by compiled code"""

    def __init__(self, K, nm):
        self.K, self.nm = K, nm

    def load(self, en, st, ob, p, n, ty):
        v = self.K.load(st, p, n)
        return v.l[0] if n == 1 else T.concat(v.l)

    def store(self, en, st, ob, p, v, n):
        en.prove(st, T.FALSE, "kernel does not write its operands", self.nm)
        raise Stop()


class Kern:
    def __init__(self, config, bdp=None, kernel=None, swap=False, timeout=30, rng=None):
        self.umax = rng
        T.UMAX.update(rng or {})
        d = ("-DBDP=" + bdp if bdp else "") + (" -DKERNEL=" + kernel if kernel else "") + (" -DGEMMLOWP_DOTPROD_KERNEL -march=armv8.2-a+dotprod" if kernel and "dotprod" in kernel else "")
        self.mod = build.module("gemm_kernel.cc", config, defs=d)
        self.en = LoopEngine(self.mod, timeout=timeout, hooks={"g_end": self.h_end})
        self.en.accum = True
        self.en.kasm = self
        self.config, self.swap = config, swap

    def const(self, f):
        (s, r), = self.en.run("@" + f, [], State())
        return r.const

    # ---- memory seen by the assembly
    def load(self, st, p, n):
        en = self.en
        nm = self.names.get(p.obj)
        if nm is None:
            g = en.objs[p.obj].handler
            if n % 4:
                raise Undecided("partial load of the result")
            return kasm.V(32, [g.load(en, st, None, Ptr(p.obj, T.add(p.off, C(en.pb, i), True)), 4, None) for i in range(0, n, 4)])
        top = T.add(T.scale(self.up, self.cell[nm], True), C(en.pb, SLACK.get(self.config, {}).get(nm, 0)), True)
        en.prove(st, T.band(T.cmp("sge", p.off, C(en.pb, 0)), T.cmp("sle", T.add(p.off, C(en.pb, n), True), top)),
                 "kernel reads only the packed %s" % nm, "")
        lo, hi = self.rng[nm]
        return kasm.V(8, [T.app(nm, [T.add(p.off, C(en.pb, i), True)], 8, lo, hi) for i in range(n)])

    def store(self, st, p, v):
        en = self.en
        if p.obj in self.names:
            en.prove(st, T.FALSE, "kernel does not write its operands", self.names[p.obj])
            raise Stop()
        g = en.objs[p.obj].handler
        for i, x in enumerate(v.lanes(32)):
            g.store(en, st, None, Ptr(p.obj, T.add(p.off, C(en.pb, 4 * i), True)), x, 4)

    def all_atoms(self, e, out):
        for m in e.t:
            for i in m:
                if i not in out:
                    out.add(i)
                    for a in T.A(i).args:
                        if isinstance(a, T.E):
                            self.all_atoms(a, out)
        return out

    def atoms(self, e):
        return self.all_atoms(e, set())

    def shift(self, e, by):
        mp = {}
        for i in self.atoms(e):
            a = T.A(i)
            if a.op in by:
                lo, hi = self.rng[a.op]
                mp[i] = T.app(a.op, [T.add(a.args[0], by[a.op], True)], 8, lo, hi)
        return T.subst(e, mp) if mp else e

    # ---- the contract
    def leafatom(self, i):
        """atom of a 32-bit product -> (operand, offset): the operand's byte extended to 32 bits"""
        a = T.A(i)
        if a.op in ("lhs", "rhs"):
            return a.op, a.args[0]
        if a.op in ("zext", "sext") and isinstance(a.args[0], T.E) and a.args[0].single is not None:
            b = a.args[0].single
            if b.op in ("lhs", "rhs") and b.w == 8 and ((a.op == "sext") == self.signed):
                return b.op, b.args[0]
        return None

    def place(self, nm, off):
        """offset -> (cell number, entry, depth) in the packed format"""
        w, d, cells, order = self.fmt[nm]
        B = self.cell[nm]
        t, c = {}, 0
        for m, k in off.t.items():
            if not m:
                c = k
            elif k % B:
                return None
            else:
                t[m] = k // B
        h = 1 << (off.w - 1)
        c = (c + h) % (2 * h) - h
        n = T.add(T.E(off.w, t, True), C(off.w, c // B), True)
        r = c % B
        cell, r = divmod(r, w * d)
        if order == self.DM:
            x, y = r % w, r // w
        elif order == self.WM:
            x, y = r // d, r % d
        else:
            return None
        return n, cell * w + x, y

    def cells(self, e, i, j):
        """terms of a straight-line part -> (set of cells covered completely, remaining old-value coefficient) or None"""
        got, old = {}, 0
        for m, k in e.t.items():
            if not m:
                return None
            if len(m) == 1 and m[0] == self.oldid[(i, j)]:
                if k != 1:
                    return None
                old = 1
                continue
            if len(m) != 2 or k != 1:
                return None
            L, R = self.leafatom(m[0]), self.leafatom(m[1])
            if L is None or R is None:
                return None
            if L[0] == "rhs":
                L, R = R, L
            if (L[0], R[0]) != ("lhs", "rhs"):
                return None
            a, b = self.place("lhs", L[1]), self.place("rhs", R[1])
            if a is None or b is None or a[0] != b[0] or a[1] != i or b[1] != j or a[2] != b[2]:
                return None
            s = got.setdefault(a[0], set())
            if a[2] in s:
                return None
            s.add(a[2])
        if any(len(s) != self.kd for s in got.values()):
            return None
        return list(got), old

    def entry(self, st, v, loops, i, j):
        """value stored at (i, j) -> (number of cells added, old coefficient) or the reason it is not of the contract's form"""
        parts = []
        for (n, t, t1, accs) in reversed(loops):
            f, rest = C(v.w, 0), v
            for m, k in list(v.t.items()):
                if len(m) == 1 and m[0] in accs:
                    if k != 1:
                        return "accumulator used %d times" % k
                    a0, fa = accs[m[0]]
                    A = T.E(v.w, {m: 1}, True)
                    rest = T.add(T.sub(rest, A), a0)
                    f = T.add(f, fa)
            # what the code after this loop added, apart from the accumulators' initial values
            parts.append((T.sext(t, self.en.pb) if t.w < self.en.pb else t, f))
            v = rest
        r = self.cells(v, i, j)
        if r is None:
            return "straight-line part is not a sum of products of matching entries: %s" % repr(v)[:300]
        straight, old = r
        straight = list(straight)
        pos = C(self.en.pb, 0)

        def take(pos):
            while True:
                h = [c for c in straight if c == pos]
                if not h:
                    return pos
                straight.remove(h[0])
                pos = T.add(pos, C(self.en.pb, 1), True)
        pos = take(pos)
        for t, f in reversed(parts):
            if not f.t:
                continue
            r = self.cells(f, i, j)
            if r is None or r[1]:
                return "loop body does not add products of matching entries: %s" % repr(f)[:300]
            a = len(r[0])
            base = T.add(pos, T.scale(t, a, True), True)
            want = [T.add(base, C(self.en.pb, x), True) for x in range(a)]
            if not all(any(c == y for c in r[0]) for y in want):
                return "loop iteration t adds cells %r, expected %r" % (r[0], want)
            pos = take(T.add(pos, T.scale(t, a, True), True))
        if straight:
            return "cells %r added out of sequence" % straight
        return pos, old

    def h_end(self, en, st, a, I):
        g = self.g
        loops = st.ghost.get("kloops", ())
        want = {(c, r) for r in range(self.rows) for c in range(self.cols)}
        def ob(ok, name, detail, definite=True):
            r = solve.Result("unsat" if ok else "sat", {}, solver="normal-form")
            r.approx = not (ok or definite)       # a different form is not yet a different value: decided by the native search
            en.obls.append(Obligation(name, "", "discharged" if ok else "refuted", r, detail=detail))
        w = g.written(st)
        ob(w == want, "kernel writes exactly its register block", "" if w == want else "missing %s extra %s" % (sorted(want - w)[:4], sorted(w - want)[:4]))
        if w != want:
            raise Stop()
        done = set()
        for c in range(self.cols):
            for r in range(self.rows):
                v = g.get(en, st, c, r)
                x = self.entry(st, v, loops, r, c)
                ok = not isinstance(x, str)
                ob(ok, "kernel entry (%d,%d) is the sum of its cells' products" % (r, c), "" if ok else x, False)
                if ok and x not in done:
                    done.add(x)
                    n, old = x
                    en.prove(st, T.band(T.cmp("sge", n, self.N), T.cmp("sle", n, self.up)), "kernel adds every cell of the run exactly once", "%r" % n)
                    z = T.cmp("eq", self.v["sd"], C(en.pb, 0))
                    en.prove(st, T.bnot(z) if old else z, "kernel accumulates exactly when the run does not start at depth 0", "")
        en.reached.add("cover:end")
        return [(st, None)]

    def run(self):
        en = self.en
        self.fmt = {nm: tuple(self.const("%s_%d" % (f, s)) for f in ("cw", "cd", "cn", "co")) for s, nm in enumerate(("lhs", "rhs"))}
        self.DM, self.WM = self.const("k_dm"), self.const("k_wm")
        self.signed = bool(self.const("k_sg"))
        self.kd = self.const("k_depth")
        self.rs = self.const("k_rs")
        self.cell = {k: f[0] * f[1] * f[2] for k, f in self.fmt.items()}
        self.rows, self.cols = self.fmt["lhs"][0] * self.fmt["lhs"][2], self.fmt["rhs"][0] * self.fmt["rhs"][2]
        # signed kernels: one operand never holds -128 (which one depends on whether the product was transposed)
        self.rng = {nm: (-127, 127) if self.signed and (nm == "rhs") == bool(self.swap) else (None, None) for nm in ("lhs", "rhs")}
        st = State()
        pb = en.pb
        self.N = T.var("cells", pb, 1, (1 << 31) // 256)
        per = max(1, self.rs // self.kd)
        # the packed depth in cells: the run's cells rounded up to the register size
        self.up = T.scale(T.var("upq", pb, 1, (1 << 31) // 256), per, True)
        st.assume(T.band(T.cmp("sge", self.up, self.N), T.cmp("slt", self.up, T.add(self.N, C(pb, per), True))))
        v = self.v = {"cs": T.var("colstride", pb, 1, (1 << 31) - 1), "sd": T.scale(T.var("sdq", pb, 0, (1 << 31) // 256), self.rs, True), "rd": T.scale(self.N, self.kd, True)}
        self.names = {}
        for nm in ("lhs", "rhs"):
            v[nm] = en.new_obj(st, nm)
            en.objs[v[nm].obj].meta = {"align": 1}
            self.names[v[nm].obj] = nm
            en.objs[v[nm].obj].handler = Bytes(self, nm)
        v["dst"] = en.new_obj(st, "dst")
        en.objs[v["dst"].obj].meta = {"align": 1}
        self.g = en.objs[v["dst"].obj].handler = Grid(en, st, C(pb, 0), v["cs"], 4, self.cols, self.rows, "result", ro=False)
        self.oldid = {}
        for c in range(self.cols):
            for r in range(self.rows):
                o = self.g.get(en, st, c, r)
                self.oldid[(r, c)] = o.single.id
        rets = en.run("@kr", [v[n] for n in ("dst", "cs", "lhs", "rhs", "sd", "rd")], st)
        return en, rets


def run_kernel(config, bdp=None, kernel=None, swap=False, timeout=30, rng=None):
    return Kern(config, bdp, kernel, swap, timeout, rng).run()
