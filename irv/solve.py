"""Translation of terms to SMT (bit-vectors or integers) and the solver front end."""
import subprocess, tempfile, os, time
import z3
from . import term as T

STATS = {"queries": 0, "time": 0.0, "z3": 0, "cvc5": 0, "syntactic": 0, "sat": 0, "unsat": 0, "unknown": 0}


class BVTrans:
    """terms -> z3 bit-vectors (exact machine semantics)"""

    def __init__(self, abstract_mul=False):
        self.ec = {}
        self.ac = {}
        self.bc = {}
        self.side = []
        self.abstract_mul = abstract_mul
        self.leaves = {}
        self.uf = False
        self.ufs = {}

    def e(self, x):
        k = x.key
        r = self.ec.get(k)
        if r is None:
            w = x.w
            r = None
            for m, c in sorted(k[1]):
                if not m:
                    t = z3.BitVecVal(c, w)
                else:
                    t = self.mono(m, w)
                    if c == -1:
                        t = -t
                    elif c != 1:
                        cc = c & ((1 << w) - 1)
                        if cc & (cc - 1) == 0:
                            t = t << (cc.bit_length() - 1)
                        else:
                            t = t * z3.BitVecVal(c, w)
                r = t if r is None else r + t
            if r is None:
                r = z3.BitVecVal(0, w)
            self.ec[k] = r
        return r

    def mono(self, m, w):
        if len(m) == 1:
            return self.a(T.A(m[0]))
        key = ("mono", m, w)
        if key in self.ec:
            return self.ec[key]
        if self.abstract_mul:
            r = z3.BitVec("mono_%s_%d" % ("_".join(map(str, m)), w), w)
            # range lemma from the factor ranges
            l, h = 1, 1
            for i in m:
                al, ah = T.arange(T.A(i))
                cs = (l * al, l * ah, h * al, h * ah)
                l, h = min(cs), max(cs)
            if l >= -(1 << (w - 1)) and h < (1 << (w - 1)):
                self.side += [r >= z3.BitVecVal(l, w), r <= z3.BitVecVal(h, w)]
                if len(m) == 2:
                    # extremal-product lemma: x*y reaches its maximum l*l (|l| > h) only at x = y = l
                    (al, ah), (bl, bh) = T.arange(T.A(m[0])), T.arange(T.A(m[1]))
                    if al == bl < 0 and ah == bh == -al - 1:
                        x, y = self.a(T.A(m[0])), self.a(T.A(m[1]))
                        L = z3.BitVecVal(al, w)
                        both = z3.And(x == L, y == L)
                        self.side += [both == (r == z3.BitVecVal(al * al, w)),
                                      z3.Or(both, r <= z3.BitVecVal(al * (al + 1), w))]
        else:
            r = self.a(T.A(m[0]))
            for i in m[1:]:
                r = r * self.a(T.A(i))
        self.ec[key] = r
        return r

    def a(self, a):
        r = self.ac.get(a.id)
        if r is None:
            r = self._a(a)
            self.ac[a.id] = r
        return r

    def _a(self, a):
        op, w, x = a.op, a.w, a.args
        e = self.e
        if op == "var":
            r = z3.BitVec(a.name, w)
            self.leaves[a.name] = (r, a)
            if a.lo is not None:
                self.side.append(r >= z3.BitVecVal(a.lo, w))
            if a.hi is not None:
                self.side.append(r <= z3.BitVecVal(a.hi, w))
            return r
        if op == "sext":
            return z3.SignExt(w - x[0].w, e(x[0]))
        if op == "zext":
            return z3.ZeroExt(w - x[0].w, e(x[0]))
        if op == "trunc":
            return z3.Extract(w - 1, 0, e(x[0]))
        if op == "extract":
            return z3.Extract(x[1] + w - 1, x[1], e(x[0]))
        if op == "concat":
            return z3.Concat(*[e(p) for p in reversed(x)])
        if op == "ite":
            return z3.If(self.b(x[0]), e(x[1]), e(x[2]))
        if op == "and":
            return e(x[0]) & e(x[1])
        if op == "or":
            return e(x[0]) | e(x[1])
        if op == "xor":
            return e(x[0]) ^ e(x[1])
        if op == "shl":
            return e(x[0]) << e(x[1])
        if op == "lshr":
            return z3.LShR(e(x[0]), e(x[1]))
        if op == "ashr":
            return e(x[0]) >> e(x[1])
        if op == "sdiv":
            c = x[1].const
            if c is not None and c > 1 and c & (c - 1) == 0:
                k = c.bit_length() - 1
                n = e(x[0])
                bias = z3.If(n < 0, z3.BitVecVal(c - 1, w), z3.BitVecVal(0, w))
                return (n + bias) >> z3.BitVecVal(k, w)
            return e(x[0]) / e(x[1])
        if op == "srem":
            c = x[1].const
            if c is not None and c > 1 and c & (c - 1) == 0:
                k = c.bit_length() - 1
                n = e(x[0])
                bias = z3.If(n < 0, z3.BitVecVal(c - 1, w), z3.BitVecVal(0, w))
                return n - (((n + bias) >> z3.BitVecVal(k, w)) << z3.BitVecVal(k, w))
            return z3.SRem(e(x[0]), e(x[1]))
        if op == "udiv":
            return z3.UDiv(e(x[0]), e(x[1]))
        if op == "urem":
            return z3.URem(e(x[0]), e(x[1]))
        if op == "mulop":
            return e(x[0]) * e(x[1])
        if op == "ctlz":
            v = e(x[0])
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return r
        if op.startswith("uf:") or op.startswith("fp:"):
            self.uf = True
            if not x:
                return z3.BitVec(op + "_%d" % a.id, w)
            args = [e(y) if isinstance(y, T.E) else self.b(y) for y in x if isinstance(y, (T.E, T.B))]
            tag = op + "".join("_%s" % y for y in x if not isinstance(y, (T.E, T.B)))
            r = z3.BitVec("%s!%d" % (op, a.id), w)
            if a.lo is not None:
                self.side.append(r >= z3.BitVecVal(a.lo, w))
            if a.hi is not None:
                self.side.append(r <= z3.BitVecVal(a.hi, w))
            if not self.abstract_mul:     # Ackermann congruence
                for args2, r2 in self.ufs.get((tag, w), ()):
                    if len(args2) == len(args):
                        self.side.append(z3.Implies(z3.And(*[p == q for p, q in zip(args, args2)]), r == r2))
                self.ufs.setdefault((tag, w), []).append((args, r))
            return r
        raise T_Unsup("bv op " + op)

    def b(self, x):
        k = x.key
        r = self.bc.get(k)
        if r is None:
            r = self._b(x)
            self.bc[k] = r
        return r

    def _b(self, x):
        op = x.op
        if op == "T":
            return z3.BoolVal(True)
        if op == "F":
            return z3.BoolVal(False)
        if op == "var":
            return z3.Bool(x.args[0])
        if op == "not":
            return z3.Not(self.b(x.args[0]))
        if op == "and":
            return z3.And(*[self.b(y) for y in x.args])
        if op == "or":
            return z3.Or(*[self.b(y) for y in x.args])
        if op == "iff":
            return self.b(x.args[0]) == self.b(x.args[1])
        if op == "cmp":
            p, a, b = x.args
            a, b = self.e(a), self.e(b)
            return {"eq": lambda: a == b, "slt": lambda: a < b, "sle": lambda: a <= b,
                    "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b)}[p]()
        if op == "ufb":
            self.uf = True
            args = [self.e(y) if isinstance(y, T.E) else self.b(y) for y in x.args[1:]]
            f = z3.Function("ufb_" + x.args[0], *[y.sort() for y in args], z3.BoolSort())
            return f(*args)
        raise T_Unsup("bool op " + op)


class T_Unsup(Exception):
    pass


class IntTrans:
    """terms -> z3 integers, valid for exact terms; non-exact terms become
    unconstrained integers of their width (sound over-approximation for proofs).

    One instance is shared by all queries; every translated term remembers which facts (range constraints, defining
    equations, products, leaves) it needs, and a Query collects the facts of its own constraints."""

    def __init__(self):
        self.ec = {}
        self.ac = {}
        self.bc = {}
        self.side = Facts(self, "side")
        self.monos = {}
        self.facts = []
        self.frames = [set()]
        self.pairs = {}

    def fact(self, *f):
        self.facts.append(f)
        self.frames[-1].add(len(self.facts) - 1)

    def approximate(self):
        self.fact("approx")

    def cached(self, cache, k, fn):
        r = cache.get(k)
        if r is None:
            self.frames.append(set())
            try:
                x = fn()
            finally:
                d = self.frames.pop()
            r = cache[k] = (x, d)
        self.frames[-1] |= r[1]
        return r[0]

    def e(self, x):
        return self.cached(self.ec, (x.key, x.exact), lambda: self._e(x))

    def _e(self, x):
        if not x.exact:
            x2 = T.tighten(x)
            if x2.exact:
                x = x2
        ts = []
        for m, c in sorted(x.t.items()):
            if not m:
                ts.append(z3.IntVal(c))
            else:
                t = self.mono(m)
                ts.append(t if c == 1 else c * t)
        if x.exact:
            return z3.Sum(*ts) if len(ts) > 1 else (ts[0] if ts else z3.IntVal(0))
        # wrapped: r = poly - q*2^w
        self.nwrap = getattr(self, "nwrap", 0) + 1          # exact: the range fixes q
        q = z3.Int("wrapq_%d" % self.nwrap)
        r = z3.Sum(*(ts + [-(1 << x.w) * q]))
        self.side += [r >= -(1 << (x.w - 1)), r < (1 << (x.w - 1))]
        return r

    def mono(self, m):
        if len(m) == 1:
            return self.a(T.A(m[0]))
        return self.product([self.a(T.A(i)) for i in m])

    def product(self, f):
        fs = tuple(sorted(x.get_id() for x in f))
        if fs not in self.monos:
            v = z3.Int("m_%d" % len(self.monos))
            self.facts.append(("mono", fs, v, f))
            self.monos[fs] = (v, f, len(self.facts) - 1)
        v, _, k = self.monos[fs]
        self.frames[-1].add(k)
        return v

    def a(self, a):
        return self.cached(self.ac, a.id, lambda: self._a(a))

    def newint(self, a, name):
        r = z3.Int(name)
        lo, hi = T.arange(a)
        self.side += [r >= lo, r <= hi]
        return r

    def _a(self, a):
        op, w, x = a.op, a.w, a.args
        if op == "var":
            r = self.newint(a, a.name)
            self.fact("leaf", a.name, r, a)
            return r
        if op in ("sext", "narrow"):
            return self.e(x[0])
        if op == "zext":
            i = self.e(x[0])
            W = 1 << x[0].w
            if x[0].exact:
                return z3.If(i >= 0, i, i + W)
            r = z3.Int("zx_%d" % a.id)
            self.side += [r >= 0, r < W, z3.Or(r == i, r == i + W)]
            return r
        if op == "ite":
            return z3.If(self.b(x[0]), self.e(x[1]), self.e(x[2]))
        if op in ("sdiv", "srem"):
            q, r = self.cached(self.ec, ("div", x[0].key, x[1].key), lambda: self.divmod(x))
            return q if op == "sdiv" else r
        if op == "ashr" and x[1].const is not None:
            n = self.e(x[0]); c = 1 << x[1].const
            q = z3.Int("sh_%d" % a.id)
            self.side += [q * c <= n, n < q * c + c]
            return q
        if op == "lshr" and x[1].const is not None and T.erange(x[0])[0] >= 0:
            n = self.e(x[0]); c = 1 << x[1].const
            q = z3.Int("sh_%d" % a.id)
            self.side += [q * c <= n, n < q * c + c]
            return q
        if op == "trunc" and x[0].exact:
            n = self.e(x[0])
            r = z3.Int("tr_%d" % a.id); q = z3.Int("trq_%d" % a.id)
            H = 1 << (w - 1)
            self.side += [n == r + q * (2 * H), r >= -H, r < H]
            return r
        if op == "extract" and x[0].exact:
            n = self.e(x[0])
            r = z3.Int("ex_%d" % a.id); q = z3.Int("exq_%d" % a.id); l = z3.Int("exl_%d" % a.id)
            H = 1 << (w - 1)
            self.side += [n == l + (1 << x[1]) * (r + q * (2 * H)), r >= -H, r < H, l >= 0, l < (1 << x[1])]
            return r
        self.approximate()
        return self.newint(a, "op_%s_%d" % (op, a.id))

    def divmod(self, x):
        n, d = self.e(x[0]), self.e(x[1])
        k = len(self.facts)
        q = z3.Int("q_%d" % k)
        r = z3.Int("r_%d" % k)
        c = x[1].const
        if c is not None:
            if c != 0:
                self.side += [n == q * c + r, z3.Implies(n >= 0, z3.And(r >= 0, r < abs(c))),
                              z3.Implies(n <= 0, z3.And(r <= 0, r > -abs(c)))]
        else:
            v = self.product([q, d])
            self.side += [z3.Implies(d != 0, n == v + r),
                          z3.Implies(z3.And(n >= 0, d > 0), z3.And(r >= 0, r < d, q >= 0, v >= 0)),
                          z3.Implies(z3.And(n <= 0, d > 0), z3.And(r <= 0, r > -d, q <= 0, v <= 0))]
        self.fact("keep", q)
        return q, r

    def b(self, x):
        return self.cached(self.bc, x.key, lambda: self._b(x))

    def _b(self, x):
        op = x.op
        if op == "T":
            return z3.BoolVal(True)
        if op == "F":
            return z3.BoolVal(False)
        if op == "var":
            return z3.Bool(x.args[0])
        if op == "not":
            return z3.Not(self.b(x.args[0]))
        if op == "and":
            return z3.And(*[self.b(y) for y in x.args])
        if op == "or":
            return z3.Or(*[self.b(y) for y in x.args])
        if op == "iff":
            return self.b(x.args[0]) == self.b(x.args[1])
        if op == "cmp":
            p, a, b = x.args
            if p in ("ult", "ule"):
                ia, ib = self.uns(a), self.uns(b)
                return ia < ib if p == "ult" else ia <= ib
            a, b = self.e(a), self.e(b)
            return {"eq": lambda: a == b, "slt": lambda: a < b, "sle": lambda: a <= b}[p]()
        if op == "ufb":
            self.approximate()
            return z3.Bool("ufb_%s_%x" % (x.args[0], hash(x.key) & 0xffffffffffff))
        raise T_Unsup("bool op " + op)

    def uns(self, a):
        c = a.uconst
        if c is not None:
            return z3.IntVal(c)
        i = self.e(a)
        return z3.If(i >= 0, i, i + (1 << a.w))

    def mono_lemmas(self, k):
        """monotonicity / sign / distributivity lemma instances for a product (all of them are valid integer facts)"""
        r = self.pairs.get(k)
        if r is None:
            _, fs, v, f = self.facts[k]
            r = []
            if len(f) == 2:
                a, b = f
                r = [z3.Implies(z3.And(a >= 0, b >= 0), v >= 0),
                     z3.Implies(z3.Or(a == 0, b == 0), v == 0),
                     z3.Implies(z3.And(a >= 1, b >= 0), v >= b),
                     z3.Implies(z3.And(b >= 1, a >= 0), v >= a),
                     z3.Implies(a == 1, v == b), z3.Implies(b == 1, v == a)]
                if fs[0] == fs[1]:
                    r.append(v >= 0)
            self.pairs[k] = r
        return r

    def pair_lemmas(self, i, j):
        r = self.pairs.get((i, j))
        if r is None:
            r = []
            f, g = self.facts[i], self.facts[j]
            if len(f[3]) == 2 and len(g[3]) == 2:
                for x in range(2):
                    for y in range(2):
                        if f[3][x].get_id() == g[3][y].get_id():
                            s = f[3][x]; a = f[3][1 - x]; b = g[3][1 - y]; va = f[2]; vb = g[2]
                            # va = s*a, vb = s*b
                            r += [z3.Implies(z3.And(s >= 0, a <= b), va <= vb),
                                  z3.Implies(z3.And(s >= 0, b <= a), vb <= va),
                                  z3.Implies(z3.And(s >= 0, a < b), va + s <= vb),
                                  z3.Implies(z3.And(s >= 0, b < a), vb + s <= va),
                                  z3.Implies(a == b, va == vb)]
            self.pairs[(i, j)] = r
        return r


class Facts:
    def __init__(self, tr, kind):
        self.tr, self.kind = tr, kind

    def __iadd__(self, cs):
        self.tr.fact(self.kind, cs)
        return self


_int = [None, None]


class Query:
    def __init__(self, bs):
        if _int[0] is None or _int[1] != T.gen[0]:
            _int[0], _int[1] = IntTrans(), T.gen[0]
        tr = self.tr = _int[0]
        tr.frames = [set()]
        self.cs = [tr.b(x) for x in bs]
        ks = sorted(tr.frames[0])
        self.approx = False
        self.leaves = {}
        self.ms = []
        for k in ks:
            f = tr.facts[k]
            if f[0] == "side":
                self.cs += f[1]
            elif f[0] == "mono":
                self.ms.append(k)
            elif f[0] == "leaf":
                self.leaves[f[1]] = (f[2], f[3])
            elif f[0] == "approx":
                self.approx = True

    def lemmas(self):
        out = []
        for n, i in enumerate(self.ms):
            out += self.tr.mono_lemmas(i)
            for j in self.ms[:n]:
                out += self.tr.pair_lemmas(i, j)
        return out

    def nonlinear(self):
        return [self.tr.facts[k][2] == z3.Product(*self.tr.facts[k][3]) for k in self.ms]


class Result:
    __slots__ = ("status", "model", "reason", "time", "solver", "approx", "mode")

    def __init__(self, status, model=None, reason="", time=0.0, solver="z3", approx=False, mode=""):
        self.status, self.model, self.reason, self.time, self.solver = status, model, reason, time, solver
        self.approx, self.mode = approx, mode


def _run_z3(cs, timeout, logic=None):
    s = z3.Solver() if logic is None else z3.SolverFor(logic)
    s.set("timeout", int(timeout * 1000))
    s.add(*cs)
    r = s.check()
    return s, r


def _run_cvc5(cs, timeout):
    s = z3.Solver()
    s.add(*cs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, fn = tempfile.mkstemp(suffix=".smt2")
    try:
        os.write(fd, txt.encode()); os.close(fd)
        p = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), fn], capture_output=True, text=True,
                           timeout=timeout + 10)
        return p.stdout.strip().split("\n")[0]
    except Exception:
        return "unknown"
    finally:
        os.unlink(fn)


def _vars(x, memo):
    """leaf variables of a term"""
    if isinstance(x, T.E):
        k = ("E",) + x.key
    elif isinstance(x, T.B):
        k = ("B",) + x.key
    else:
        return frozenset()
    r = memo.get(k)
    if r is None:
        out = set()
        if isinstance(x, T.E):
            for m in x.t:
                for i in m:
                    out |= _avars(i, memo)
        else:
            if x.op == "var":
                out.add(("b", x.args[0]))
            for y in x.args:
                out |= _vars(y, memo)
        r = frozenset(out)
        memo[k] = r
    return r


def _avars(i, memo):
    k = ("a", i)
    r = memo.get(k)
    if r is None:
        a = T.A(i)
        if a.op == "var":
            r = frozenset([i])
        else:
            out = set()
            for y in a.args:
                out |= _vars(y, memo)
            r = frozenset(out)
        memo[k] = r
    return r


def slice_pc(pc, goal):
    """assumptions transitively sharing variables with the goal (dropping the rest only weakens)"""
    memo = {}
    vs = set(_vars(goal, memo))
    rest = [(b, _vars(b, memo)) for b in pc]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for b, v in rest:
            if not v or v & vs:
                out.append(b)
                vs |= v
                ch = True
            else:
                nr.append((b, v))
        rest = nr
    return out


def canon(xs):
    """alpha-canonical form of a list of terms: (key, var order)"""
    names = {}
    order = []
    memo = {}

    def ee(x):
        k = ("E", x.key)
        if k in memo:
            return memo[k]
        ts = []
        for m, c in sorted(x.key[1]):
            ts.append((tuple(aa(i) for i in m), c))
        r = memo[k] = ("e", x.w, tuple(ts))
        return r

    def aa(i):
        k = ("a", i)
        if k in memo:
            return memo[k]
        a = T.A(i)
        if a.op == "var":
            n = len(names)
            names[i] = n
            order.append(a.name)
            r = ("v", n, a.w, a.lo, a.hi)
        else:
            r = (a.op, a.w) + tuple(go(y) for y in a.args)
        r = ids.setdefault(r, ("n", len(ids)))
        memo[k] = r
        return r
    ids = {}

    def bb(x):
        k = ("B", x.key)
        if k in memo:
            return memo[k]
        if x.op == "var":
            kk = ("bv", x.args[0])
            if kk not in names:
                names[kk] = len(names)
                order.append(x.args[0])
            r = ("bvar", names[kk])
        else:
            r = (x.op,) + tuple(go(y) for y in x.args)
        r = ids.setdefault(r, ("n", len(ids)))
        memo[k] = r
        return r

    def go(y):
        if isinstance(y, T.E):
            return ee(y)
        if isinstance(y, T.B):
            return bb(y)
        return ("c", y)
    top = tuple(go(x) for x in xs)
    return (top, tuple(ids.items())), order


_bv_cache = {}


def check_bv(assumptions, goal, timeout=60, want_model=True):
    if goal.op == "T":
        STATS["queries"] += 1
        STATS["syntactic"] += 1
        return Result("unsat", time=0.0, solver="normal-form", mode="bv")
    pc = slice_pc(assumptions, goal)
    key, order = canon([goal] + pc)
    hit = _bv_cache.get(key)
    if hit is not None:
        r, o2 = hit
        STATS["cached"] = STATS.get("cached", 0) + 1
        mod = None
        if r.model is not None:
            ren = dict(zip(o2, order))
            mod = {ren.get(k, k): v for k, v in r.model.items()}
        return Result(r.status, mod, r.reason, 0.0, r.solver, r.approx, r.mode)
    r = _check_bv(pc, goal, timeout)
    _bv_cache[key] = (r, order)
    return r


def _check_bv(assumptions, goal, timeout=60, want_model=True):
    """valid(assumptions => goal)?  -> Result unsat (proved) / sat (refuted, model) / unknown"""
    t0 = time.time()
    STATS["queries"] += 1
    if goal.op == "T":
        STATS["syntactic"] += 1
        return Result("unsat", time=0.0, solver="normal-form", mode="bv")
    neg = T.bnot(goal)
    has_mul = True
    for phase in ("abs", "full"):
        tr = BVTrans(abstract_mul=(phase == "abs"))
        cs = [tr.b(x) for x in assumptions] + [tr.b(neg)]
        if phase == "abs":
            mm = [k for k in tr.ec if k[0] == "mono"]
            if not mm and not tr.uf:
                continue
        cs += tr.side
        s, r = _run_z3(cs, timeout if phase == "full" else min(timeout, 20))
        if r == z3.unsat:
            dt = time.time() - t0
            STATS["time"] += dt; STATS["z3"] += 1; STATS["unsat"] += 1
            return Result("unsat", time=dt, mode="bv")
        if phase == "full":
            if r == z3.sat:
                m = s.model()
                mod = {}
                for n, (v, a) in tr.leaves.items():
                    x = m.eval(v, model_completion=True).as_long()
                    mod[n] = T.norm(x, a.w)
                dt = time.time() - t0
                STATS["time"] += dt; STATS["z3"] += 1; STATS["sat"] += 1
                return Result("sat", mod, time=dt, mode="bv", approx=tr.uf)
            c = _run_cvc5(cs, timeout)
            dt = time.time() - t0
            STATS["time"] += dt
            if c == "unsat":
                STATS["cvc5"] += 1; STATS["unsat"] += 1
                return Result("unsat", time=dt, solver="cvc5", mode="bv")
            STATS["unknown"] += 1
            return Result("unknown", reason="z3:%s cvc5:%s" % (r, c), time=dt, mode="bv")
    raise AssertionError


def check_int(assumptions, goal, timeout=20, nl=True):
    t0 = time.time()
    STATS["queries"] += 1
    if goal.op == "T":
        STATS["syntactic"] += 1
        return Result("unsat", solver="normal-form", mode="int")
    tr = Query(list(assumptions) + [T.bnot(goal)])
    cs = tr.cs
    phases = [("lia", [])]
    if tr.ms:
        phases = [("lemma", tr.lemmas())] + ([("nl", tr.lemmas() + tr.nonlinear())] if nl else [])
    r = None
    for ph, extra in phases:
        s, r = _run_z3(cs + extra, timeout if ph != "nl" else min(timeout, 10))
        if r == z3.unsat:
            dt = time.time() - t0
            STATS["time"] += dt; STATS["z3"] += 1; STATS["unsat"] += 1
            return Result("unsat", time=dt, mode="int-" + ph)
        if r == z3.sat and ph != "lemma":
            m = s.model()
            mod = {n: m.eval(v, model_completion=True).as_long() for n, (v, a) in tr.leaves.items()}
            dt = time.time() - t0
            STATS["time"] += dt; STATS["z3"] += 1; STATS["sat"] += 1
            return Result("sat", mod, time=dt, approx=tr.approx, mode="int-" + ph)
    dt = time.time() - t0
    STATS["time"] += dt; STATS["unknown"] += 1
    return Result("unknown", reason=str(r), time=dt, approx=tr.approx, mode="int")


_feas_cache = {}


def feasible(pc, mode, timeout=5):
    """False only if the path condition is unsatisfiable"""
    key = (frozenset(b.key for b in pc), mode)
    if key in _feas_cache:
        return _feas_cache[key]
    for b in pc:
        if b.op == "F":
            return False
    t0 = time.time()
    if mode == "bv":
        tr = BVTrans(abstract_mul=True)
        cs = [tr.b(x) for x in pc]
        cs += tr.side
    else:
        tr = Query(pc)
        cs = tr.cs + tr.lemmas()
    s, r = _run_z3(cs, timeout)
    STATS["time"] += time.time() - t0
    STATS["queries"] += 1
    res = r != z3.unsat
    _feas_cache[key] = res
    return res
