"""C10: accuracy of the scalar fixed-point functions, for every raw input.

The function is taken from the IR of /repo's header with each raw primitive (SaturatingRoundingDoublingHighMul, SelectUsingMask, ...) replaced by
its contract (proved in C08), which leaves a term over named primitives.  Three evaluations of that term:
  exact  - the contracts' defining arithmetic on concrete inputs (numpy int64), used for all 2^16 inputs of the 16-bit types and for small pieces;
  taylor - one polynomial in the input plus an error bound per input interval, each primitive adding the error its contract allows;
  sym    - the term rebuilt for an input of known sign (the exact symmetry clauses).
The input domain is cut into intervals; an interval that cannot be decided is bisected, down to pieces evaluated exactly."""
import math
import re
import numpy as np
from . import build, exec as X, term as T, contracts, solve
from .exec import Obligation
from .ir import IRUnsupported
from .runner import ob_dict

D = 6                     # polynomial degree kept
EPS = 2.0 ** -12          # outward slack per operation, far above double rounding (operands < 2^34)
PIECE = 2048              # intervals this small are evaluated point by point
_mods = {}


class Undecidable(Exception):
    pass


def module(config="x86_default"):
    if config not in _mods:
        keep, hooks = contracts.get("prims")
        _mods[config] = (build.module("fp_acc.cc", config, keep=tuple(keep), wrapv=True), hooks)
    return _mods[config]


def paths(fn, w):
    mod, hooks = module()
    en = X.Engine(mod, hooks=hooks)
    a = T.var("in%d" % w, w)
    return [(list(st.pc), t) for st, t in en.run("@" + fn, [a], X.State())]


_uf = re.compile(r"^uf:(\w+?)(?:<(-?\d+)>)?_(\d+)$")


def split_op(op):
    m = _uf.match(op)
    if not m:
        return op, None, None
    return m.group(1), None if m.group(2) is None else int(m.group(2)), int(m.group(3))


# ------------------------------------------------------------------ exact
def wrap(x, w):
    h = 1 << (w - 1)
    return ((x + h) & ((1 << w) - 1)) - h


def sat(x, w):
    h = 1 << (w - 1)
    return np.clip(x, -h, h - 1)


def rdiv(x, e):
    half = np.where(e > 0, np.left_shift(np.int64(1), np.maximum(e - 1, 0)), 0)
    q = np.right_shift(np.abs(x) + half, e)
    return np.where(x >= 0, q, -q)


class Exact:
    def __init__(self, a):
        self.a = a.astype(np.int64)
        self.memo = {}

    def term(self, e):
        r = self.memo.get(e.key)
        if r is None:
            r = np.zeros_like(self.a)
            for m, c in e.t.items():
                v = np.full_like(self.a, wrap(c, e.w))
                for i in m:
                    v = wrap(v * self.at(T.A(i)), e.w) if e.w <= 32 else self.big(v, self.at(T.A(i)))
                r = r + v
            r = wrap(r, e.w) if e.w <= 32 else self.fit(r)
            self.memo[e.key] = r
        return r

    def fit(self, r):
        if np.any(np.abs(r) >= 1 << 62):
            raise Undecidable("wide arithmetic")
        return r

    def big(self, u, v):
        if np.any(np.abs(u.astype(float)) * np.abs(v.astype(float)) >= 2.0 ** 62):
            raise Undecidable("wide arithmetic")
        return u * v

    def at(self, a):
        k = ("a", a.id)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.apply(a)
        return r

    def bool(self, b):
        o = b.op
        if o == "T":
            return np.ones(len(self.a), bool)
        if o == "F":
            return np.zeros(len(self.a), bool)
        if o == "not":
            return ~self.bool(b.args[0])
        if o in ("and", "or"):
            r = self.bool(b.args[0])
            for x in b.args[1:]:
                r = (r & self.bool(x)) if o == "and" else (r | self.bool(x))
            return r
        if o == "cmp":
            p, x, y = b.args
            u, v = self.term(x), self.term(y)
            if p in ("ult", "ule"):
                u, v = u & ((1 << x.w) - 1), v & ((1 << x.w) - 1)
                p = "s" + p[1:]
            return {"eq": u == v, "slt": u < v, "sle": u <= v}[p]
        raise Undecidable("boolean " + o)

    def apply(self, a):
        op, e, w = split_op(a.op)
        if op == "var":
            return self.a
        if op == "ite":
            return np.where(self.bool(a.args[0]), self.term(a.args[1]), self.term(a.args[2]))
        if op in ("trunc", "sext"):
            return wrap(self.term(a.args[0]), a.w) if a.w <= 32 else self.term(a.args[0])
        if op == "zext":
            return self.term(a.args[0]) & ((1 << a.args[0].w) - 1)
        x = [self.term(v) for v in a.args]
        if w is None:
            if op in ("and", "or", "xor"):
                return {"and": x[0] & x[1], "or": x[0] | x[1], "xor": x[0] ^ x[1]}[op]
            if op == "ashr" and np.all((x[1] >= 0) & (x[1] < a.w)):
                return x[0] >> x[1]
            if op == "shl" and np.all((x[1] >= 0) & (x[1] < a.w)) and a.w <= 32:
                return wrap(x[0] << x[1], a.w)
            raise Undecidable("operation " + op)
        m = lambda c: np.where(c, -1, 0).astype(np.int64)
        if op == "Add":
            return wrap(x[0] + x[1], w)
        if op == "Sub":
            return wrap(x[0] - x[1], w)
        if op == "Neg":
            return wrap(-x[0], w)
        if op == "Mul":
            return wrap(x[0] * x[1], w)
        if op == "SaturatingAdd" or (op == "AddSaturatingIf16Bit" and w == 16):
            return sat(x[0] + x[1], w)
        if op == "AddSaturatingIf16Bit":
            return wrap(x[0] + x[1], w)
        if op == "BitAnd":
            return x[0] & x[1]
        if op == "BitOr":
            return x[0] | x[1]
        if op == "BitXor":
            return x[0] ^ x[1]
        if op == "BitNot":
            return ~x[0]
        if op == "ShiftRight" and np.all((x[1] >= 0) & (x[1] < w)):
            return x[0] >> x[1]
        if op == "ShiftLeft" and np.all((x[1] >= 0) & (x[1] < w)):
            return wrap(x[0] << x[1], w)
        if op == "SelectUsingMask":
            if np.any((x[0] != 0) & (x[0] != -1)):
                raise Undecidable("mask value")
            return np.where(x[0] != 0, x[1], x[2])
        if op == "MaskIfZero":
            return m(x[0] == 0)
        if op == "MaskIfNonZero":
            return m(x[0] != 0)
        if op == "MaskIfEqual":
            return m(x[0] == x[1])
        if op == "MaskIfNotEqual":
            return m(x[0] != x[1])
        if op == "MaskIfGreaterThan":
            return m(x[0] > x[1])
        if op == "MaskIfGreaterThanOrEqual":
            return m(x[0] >= x[1])
        if op == "MaskIfLessThan":
            return m(x[0] < x[1])
        if op == "MaskIfLessThanOrEqual":
            return m(x[0] <= x[1])
        if op == "RoundingHalfSum":
            return (x[0] + x[1] + 1) >> 1
        if op == "SaturatingRoundingDoublingHighMul":
            return sat((x[0] * x[1] + (1 << (w - 2))) >> (w - 1), w)
        if op == "RoundingDivideByPOT" and np.all((x[1] >= 0) & (x[1] <= 31)):
            return rdiv(x[0], x[1])
        if op == "SaturatingRoundingMultiplyByPOT":
            return x[0] if e == 0 else sat(x[0] << e, w) if e > 0 else rdiv(x[0], np.int64(-e))
        raise Undecidable("primitive " + op)


def exact(ps, a):
    """the result for each concrete input in the array a"""
    ev = Exact(a)
    r = np.zeros(len(a), np.int64)
    done = np.zeros(len(a), bool)
    for pc, t in ps:
        c = np.ones(len(a), bool)
        for b in pc:
            c &= ev.bool(b)
        if np.any(c & done):
            raise Undecidable("overlapping paths")
        r = np.where(c, ev.term(t), r)
        done |= c
    if not np.all(done):
        raise Undecidable("no path")
    return r


# ------------------------------------------------------------------ taylor
class V:
    """lin: (k, m) with value = k*a + m exactly; else (c, e): polynomial in t, error bound.  lo/hi bounds, bad: lanes not decided"""
    __slots__ = ("k", "m", "c", "e", "lo", "hi", "bad")


class Taylor:
    def __init__(self, alo, ahi):
        self.alo, self.ahi = alo.astype(np.int64), ahi.astype(np.int64)
        self.n = len(alo)
        self.mid = (self.alo + self.ahi) / 2.0
        self.rad = (self.ahi - self.alo) / 2.0
        self.memo = {}

    def lin(self, k, m, bad=None):
        v = V()
        v.k, v.m = np.broadcast_to(np.asarray(k, np.int64), (self.n,)), np.broadcast_to(np.asarray(m, np.int64), (self.n,))
        a, b = v.k * self.alo + v.m, v.k * self.ahi + v.m
        v.lo, v.hi = np.minimum(a, b).astype(float), np.maximum(a, b).astype(float)
        v.c = v.e = None
        v.bad = np.zeros(self.n, bool) if bad is None else bad
        return v

    def poly(self, c, e, bad):
        v = V()
        v.k = v.m = None
        v.c, v.e = c, e + EPS
        s = np.sum(np.abs(c[:, 1:]), axis=1) + v.e
        v.lo, v.hi = c[:, 0] - s, c[:, 0] + s
        v.bad = bad | ~np.isfinite(s) | (s > 2.0 ** 40)
        return v

    def ce(self, v):
        if v.c is None:
            c = np.zeros((self.n, D + 1))
            c[:, 0] = v.k * self.mid + v.m
            c[:, 1] = v.k * self.rad
            return c, np.zeros(self.n)
        return v.c, v.e

    def const(self, x):
        return self.lin(0, x)

    def isconst(self, v):
        return v.k is not None and not np.any(v.k)

    def add(self, x, y, s=1):
        bad = x.bad | y.bad
        if x.k is not None and y.k is not None:
            return self.lin(x.k + s * y.k, x.m + s * y.m, bad)
        (c, e), (d, f) = self.ce(x), self.ce(y)
        r = self.poly(c + s * d, e + f, bad)
        yl, yh = (y.lo, y.hi) if s > 0 else (-y.hi, -y.lo)
        r.lo, r.hi = np.maximum(r.lo, x.lo + yl), np.minimum(r.hi, x.hi + yh)
        if np.any(np.abs(x.lo) > 2.0 ** 50) or np.any(np.abs(y.lo) > 2.0 ** 50):
            r.bad = np.ones(self.n, bool)
        return r

    def mul(self, x, y, k=1.0, extra=0.0):
        """k*x*y, with extra added to the error"""
        bad = x.bad | y.bad
        for u, v in ((x, y), (y, x)):
            if k == 1.0 and self.isconst(u) and v.k is not None and np.all(np.abs(u.m) < 1 << 31) and np.all(np.abs(v.k) < 1 << 20):
                return self.lin(u.m * v.k, u.m * v.m, bad)
        (c, e), (d, f) = self.ce(x), self.ce(y)
        r = np.zeros_like(c)
        drop = np.zeros(self.n)
        for i in range(D + 1):
            r[:, i:] += c[:, i:i + 1] * d[:, :D + 1 - i]
            if i:
                drop += np.abs(c[:, i]) * np.sum(np.abs(d[:, D + 1 - i:]), axis=1)
        mc, md = np.sum(np.abs(c), axis=1), np.sum(np.abs(d), axis=1)
        err = drop + mc * f + md * e + e * f
        return self.poly(r * k, err * abs(k) * (1 + 2.0 ** -40) + extra, bad)

    def scale(self, x, k, extra=0.0):
        c, e = self.ce(x)
        return self.poly(c * k, e * abs(k) * (1 + 2.0 ** -40) + extra, x.bad)

    def ranged(self, v, w):
        """no wrap-around: lanes whose value may leave the w-bit range are not decided"""
        h = 1 << (w - 1)
        v.bad = v.bad | (v.lo < -h) | (v.hi > h - 1)
        return v

    def clamp(self, v, w):
        h = 1 << (w - 1)
        over, under = np.maximum(v.hi - (h - 1), 0), np.maximum(-h - v.lo, 0)
        if not np.any(over) and not np.any(under):
            return v
        if v.k is not None:
            full_o, full_u = v.lo > h - 1, v.hi < -h
            part = ((over > 0) & ~full_o) | ((under > 0) & ~full_u)
            return self.lin(np.where(full_o | full_u, 0, v.k), np.where(full_o, h - 1, np.where(full_u, -h, v.m)), v.bad | part)
        c, e = v.c.copy(), v.e.copy()
        fo, fu = v.lo >= h - 1, v.hi <= -h
        c[fo] = 0
        c[fo, 0] = h - 1
        c[fu] = 0
        c[fu, 0] = -h
        e = np.where(fo | fu, 0, e + over + under)
        return self.poly(c, e, v.bad)

    def mask(self, yes, no, bad):
        """-1 where yes, 0 where no, undecided elsewhere"""
        return self.lin(0, np.where(yes, -1, 0), bad | ~(yes | no))

    def term(self, e):
        r = self.memo.get(e.key)
        if r is None:
            one = e.single
            for m, c in e.t.items():
                if one is not None:
                    r = self.at(one)
                    break
                v = self.const(wrap(c, e.w)) if e.w <= 32 else self.const(c)
                for i in m:
                    v = self.mul(v, self.at(T.A(i)))
                r = v if r is None else self.add(r, v)
            if r is None:
                r = self.const(0)
            if one is None and (not self.isconst(r) or len(e.t) > 1):
                r = self.ranged(r, e.w) if e.w <= 64 else r
            self.memo[e.key] = r
        return r

    def at(self, a):
        k = ("a", a.id)
        r = self.memo.get(k)
        if r is None:
            with np.errstate(all="ignore"):
                r = self.copy(self.apply(a))
                h = 2.0 ** (a.w - 1)          # a decided lane holds an a.w-bit value
                r.lo, r.hi = np.clip(r.lo, -h, h - 1), np.clip(r.hi, -h, h - 1)
                self.memo[k] = r
        return r

    def unknown(self):
        return self.lin(0, 0, np.ones(self.n, bool))

    def select(self, m, x, y):
        sel = m.m != 0
        bad = m.bad | np.where(sel, x.bad, y.bad) | ((m.m != 0) & (m.m != -1))
        if x.k is not None and y.k is not None:
            return self.lin(np.where(sel, x.k, y.k), np.where(sel, x.m, y.m), bad)
        (c, e), (d, f) = self.ce(x), self.ce(y)
        return self.poly(np.where(sel[:, None], c, d), np.where(sel, e, f), bad)

    def bool(self, b):
        """(true lanes, false lanes)"""
        o = b.op
        if o in ("T", "F"):
            t = np.full(self.n, o == "T")
            return t, ~t
        if o == "not":
            t, f = self.bool(b.args[0])
            return f, t
        if o in ("and", "or"):
            t, f = self.bool(b.args[0])
            for x in b.args[1:]:
                u, g = self.bool(x)
                t, f = (t & u, f | g) if o == "and" else (t | u, f & g)
            return t, f
        if o == "cmp" and b.args[0] in ("eq", "slt", "sle"):
            p, x, y = b.args
            x, y = self.term(x), self.term(y)
            t, f = {"eq": lambda: ((x.lo == y.hi) & (x.hi == y.lo), (x.hi < y.lo) | (x.lo > y.hi)),
                    "slt": lambda: (x.hi < y.lo, x.lo >= y.hi), "sle": lambda: (x.hi <= y.lo, x.lo > y.hi)}[p]()
            ok = ~(x.bad | y.bad)
            return t & ok, f & ok
        z = np.zeros(self.n, bool)
        return z, z

    def bitand(self, x, y, w):
        if self.isconst(x) and not self.isconst(y):
            x, y = y, x
        if x.k is None or not self.isconst(y):
            return self.unknown()
        bad = x.bad | y.bad
        if self.isconst(x):
            return self.lin(0, x.m & y.m, bad)
        c = y.m
        M = c & ((1 << w) - 1)
        low = (M & (M + 1)) == 0
        onebit = (M != 0) & ((M & (M - 1)) == 0)
        blk = np.where(low, M + 1, np.where(onebit, M, 1))
        lo, hi = x.lo.astype(np.int64), x.hi.astype(np.int64)
        fl, fh = lo // blk, hi // blk
        k = np.where(low, x.k, 0)
        m = np.where(low, x.m - fl * blk, np.where(fl & 1, M, 0))
        z = x.k == 0
        k, m = np.where(z, 0, k), np.where(z, wrap(x.m & c, w), m)
        return self.lin(k, m, bad | (~z & ((fl != fh) | ~(low | onebit))))

    def apply(self, a):
        op, e, w = split_op(a.op)
        if op == "var":
            return self.lin(1, 0)
        if op == "ite":
            t, f = self.bool(a.args[0])
            return self.select(self.mask(t, f, np.zeros(self.n, bool)), self.term(a.args[1]), self.term(a.args[2]))
        if op in ("trunc", "sext"):
            x = self.term(a.args[0])
            return self.ranged(self.copy(x), a.w) if op == "trunc" else x
        if op == "zext":
            x = self.copy(self.term(a.args[0]))
            x.bad = x.bad | (x.lo < 0)
            return x
        x = [self.term(v) for v in a.args]
        bad = np.zeros(self.n, bool)
        for v in x:
            bad = bad | v.bad
        if all(self.isconst(v) for v in x):
            try:
                return self.lin(0, ConstEval(x, self.n).apply(a), bad)
            except Undecidable:
                return self.unknown()
        if w is None:
            return self.bitand(x[0], x[1], a.w) if op == "and" else self.unknown()
        if op in ("Add", "Sub") or (op == "AddSaturatingIf16Bit" and w == 32):
            return self.ranged(self.add(x[0], x[1], -1 if op == "Sub" else 1), w)
        if op == "Neg":
            return self.ranged(self.add(self.const(0), x[0], -1), w)
        if op == "Mul":
            return self.ranged(self.mul(x[0], x[1]), w)
        if op in ("SaturatingAdd", "AddSaturatingIf16Bit"):
            return self.clamp(self.add(x[0], x[1]), w)
        if op == "BitAnd":
            return self.bitand(x[0], x[1], w)
        if op == "SelectUsingMask":
            if x[0].k is None or not self.isconst(x[0]):
                return self.unknown()
            return self.select(x[0], x[1], x[2])
        if op.startswith("MaskIf"):
            y = x[1] if len(x) > 1 else self.const(0)
            x = x[0]
            eq, ne = (x.lo == y.hi) & (x.hi == y.lo), (x.hi < y.lo) | (x.lo > y.hi)
            lt, ge = x.hi < y.lo, x.lo >= y.hi
            le, gt = x.hi <= y.lo, x.lo > y.hi
            t, f = {"Zero": (eq, ne), "NonZero": (ne, eq), "Equal": (eq, ne), "NotEqual": (ne, eq), "GreaterThan": (gt, le),
                    "GreaterThanOrEqual": (ge, lt), "LessThan": (lt, ge), "LessThanOrEqual": (le, gt)}[op[6:]]
            return self.mask(t, f, bad)
        if op == "RoundingHalfSum":
            return self.scale(self.add(x[0], x[1]), 0.5, 0.5)
        if op == "SaturatingRoundingDoublingHighMul":
            r = self.mul(x[0], x[1], 2.0 ** -(w - 1), 0.5)
            h = -(1 << (w - 1))
            both = (x[0].lo <= h) & (x[1].lo <= h)
            r.e = r.e + both
            return self.clamp(self.poly(r.c, r.e, r.bad), w)
        if op == "RoundingDivideByPOT" and self.isconst(x[1]) and np.all((x[1].m == x[1].m[0]) & (x[1].m >= 0) & (x[1].m <= 31)):
            k = int(x[1].m[0])
            return x[0] if k == 0 else self.scale(x[0], 2.0 ** -k, 0.5)
        if op == "SaturatingRoundingMultiplyByPOT":
            if e == 0:
                return x[0]
            if e < 0:
                return self.scale(x[0], 2.0 ** e, 0.5)
            return self.clamp(self.mul(x[0], self.const(1 << e)) if x[0].k is not None else self.scale(x[0], 2.0 ** e), w)
        return self.unknown()

    def copy(self, v):
        r = V()
        for f in V.__slots__:
            setattr(r, f, getattr(v, f))
        return r


class ConstEval(Exact):
    """one primitive on operands that are constant in every lane"""

    def __init__(self, vals, n):
        self.a = np.zeros(n, np.int64)
        self.memo = {}
        self.vals = vals

    def apply(self, a):
        for t, v in zip(a.args, self.vals):
            if isinstance(t, T.E):
                self.memo[t.key] = v.m
        return Exact.apply(self, a)


def taylor(ps, alo, ahi):
    ev = Taylor(alo, ahi)
    with np.errstate(all="ignore"):
        res, got = None, np.zeros(ev.n, bool)
        for pc, t in ps:
            ok = np.ones(ev.n, bool)
            for b in pc:
                ok &= ev.bool(b)[0]
            v = ev.term(t)
            if res is None:
                res = ev.copy(v)
                res.bad = res.bad | ~ok
            else:
                res = ev.select(ev.mask(ok, ~ok, np.zeros(ev.n, bool)), v, res)
            got |= ok
        res.bad = res.bad | ~got
    return ev, res


# ------------------------------------------------------------------ reference functions
def tanh_series(x0, h):
    y = np.zeros((len(x0), D + 1))
    y[:, 0] = np.tanh(x0)
    for k in range(D):
        s = np.zeros(len(x0))
        for i in range(k + 1):
            s += y[:, i] * y[:, k - i]
        y[:, k + 1] = ((1.0 if k == 0 else 0.0) - s) / (k + 1)
    p = h[:, None] ** np.arange(D + 1)
    # |tanh| <= tan(1) < 1.5575 on the strip |Im| <= 1, so each coefficient is at most that (Cauchy, radius 1)
    return y * p, 1.5575 * h ** (D + 1) / (1 - h)


def series(fn, x0, h):
    """Taylor coefficients in t of fn(x0 + h*t), and a bound on the remainder"""
    k = np.arange(D + 1)
    if fn == "exp":
        f = np.array([math.factorial(i) for i in k], float)
        return np.exp(x0)[:, None] * h[:, None] ** k / f, np.exp(x0 + h) * h ** (D + 1) / math.factorial(D + 1)
    if fn == "tanh":
        return tanh_series(x0, h)
    if fn == "logistic":
        c, r = tanh_series(x0 / 2, h / 2)
        c = c / 2
        c[:, 0] += 0.5
        return c, r / 2
    q = h / (1 + x0)
    c = (1 / (1 + x0))[:, None] * (-q[:, None]) ** k
    r = (1 / (1 + x0)) * q ** (D + 1) / (1 - q)
    if fn == "inv":                       # 1/(1+x)
        return c, r
    c = 2 * c                             # (1-x)/(1+x) = 2/(1+x) - 1
    c[:, 0] -= 1
    return c, 2 * r


def ideal(fn, x):
    if fn == "exp":
        return np.exp(x)
    if fn == "tanh":
        return np.tanh(x)
    if fn == "logistic":
        return 1 / (1 + np.exp(-x))
    return 1 / (1 + x) if fn == "inv" else (1 - x) / (1 + x)


class Failing(Exception):
    pass


def check(ps, fn, ib, w, lo, hi, tol, step):
    """|result/2^(w-1) - fn(a/2^(w-1-ib))| <= tol units for every raw a in [lo, hi].  Returns (worst bound, intervals, exact points);
    raises Failing(input, output, error) with a concrete counterexample."""
    one, unit = float(1 << (w - 1)), 2.0 ** -(w - 1 - ib)
    worst, npts, nint = 0.0, 0, 0

    def limit(x):
        """the bound at x (nowhere smaller to the right of x)"""
        return tol[0] + tol[1] * np.exp(x) if isinstance(tol, tuple) else np.full(len(x), float(tol))

    def points(a):
        nonlocal worst, npts
        r = exact(ps, a)
        with np.errstate(all="ignore"):
            err = np.abs(r - ideal(fn, a * unit) * one)
        ok = err <= limit(a * unit)
        if not np.all(ok):
            i = int(np.argmin(ok))
            raise Failing(int(a[i]), int(r[i]), float(err[i]))
        worst, npts = max(worst, float(np.max(err))), npts + len(a)
    if w == 16:
        points(np.arange(lo, hi + 1, dtype=np.int64))
        return worst, 0, npts
    starts = [lo] + list(range((lo // step + 1) * step, hi + 1, step))
    # 0 and the most negative value are special: pieces of their own
    cut = sorted(set(starts) | {x for x in (0, 1, lo + 1) if lo < x <= hi})
    alo = np.array(cut, np.int64)
    ahi = np.append(alo[1:] - 1, hi)
    for _ in range(40):
        one_pt = ahi - alo < PIECE
        if np.any(one_pt):
            a = np.concatenate([np.arange(x, y + 1) for x, y in zip(alo[one_pt], ahi[one_pt])])
            for i in range(0, len(a), 1 << 20):
                points(a[i:i + (1 << 20)])
            alo, ahi = alo[~one_pt], ahi[~one_pt]
        if not len(alo):
            return worst, nint, npts
        if len(alo) > 400000 or npts > 3e7:
            raise Undecidable("%d intervals of the input left, e.g. [%d, %d]" % (len(alo), alo[0], ahi[0]))
        ev, r = taylor(ps, alo, ahi)
        c, e = ev.ce(r)
        with np.errstate(all="ignore"):
            s, rem = series(fn, ev.mid * unit, ev.rad * unit)
            d = np.sum(np.abs(c - s * one), axis=1) + e + rem * one + EPS
        good = ~r.bad & (d <= limit(alo * unit))
        if np.any(good):
            worst = max(worst, float(np.max(d[good])))
            nint += int(np.sum(good))
        alo, ahi = alo[~good], ahi[~good]
        if len(alo):
            # a concrete counterexample, if an interval's own points show one
            pts = np.unique(np.concatenate([alo, ahi, (alo + ahi) // 2]))
            points(pts)
            mid = (alo + ahi) // 2
            alo, ahi = np.concatenate([alo, mid + 1]), np.concatenate([mid, ahi])
    raise Undecidable("bisection depth")


# ------------------------------------------------------------------ sym
class Sym:
    """the term rebuilt with the input replaced by e (a term whose range is known); masks that the range decides are resolved"""

    def __init__(self, e):
        self.e, self.memo = e, {}

    def term(self, t):
        r = self.memo.get(t.key)
        if r is None:
            r = T.C(t.w, 0)
            for m, c in t.t.items():
                v = T.C(t.w, c)
                for i in m:
                    v = T.mul(v, self.at(T.A(i)), True)
                r = T.add(r, v, True)
            self.memo[t.key] = r
        return r

    def at(self, a):
        k = ("a", a.id)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.apply(a)
        return r

    def apply(self, a):
        op, e, w = split_op(a.op)
        if op == "var":
            return self.e
        if op == "ite":
            raise Undecidable("ite")
        x = [self.term(v) if isinstance(v, T.E) else v for v in a.args]
        inr = lambda v: T.erange(v)[0] >= -(1 << (v.w - 1)) and T.erange(v)[1] < 1 << (v.w - 1)
        if op == "Neg":
            r = T.sub(T.C(w, 0), x[0], True)
            if x[0].exact and inr(r):
                return r
        if op in ("Add", "Sub") and all(v.const is not None for v in x):
            return T.C(w, x[0].const + (x[1].const if op == "Add" else -x[1].const))
        if op == "RoundingDivideByPOT" and all(v.const is not None for v in x):
            return T.C(w, int(rdiv(np.int64(x[0].const), np.int64(x[1].const))))
        if op == "trunc" and x[0].const is not None:
            return T.C(a.w, x[0].const)
        if op.startswith("MaskIf"):
            y = x[1] if len(x) > 1 else T.C(w, 0)
            p = {"Zero": "eq", "NonZero": "ne", "Equal": "eq", "NotEqual": "ne", "GreaterThan": "sgt", "GreaterThanOrEqual": "sge",
                 "LessThan": "slt", "LessThanOrEqual": "sle"}[op[6:]]
            b = T.cmp(p, x[0], y)
            if b.op in "TF":
                return T.C(w, -1 if b.op == "T" else 0)
        if op == "SelectUsingMask" and x[0].const in (0, -1):
            return x[1] if x[0].const else x[2]
        return T.app(a.op, x, a.w)


def sym(ps, e):
    if len(ps) != 1 or any(b.op != "T" for b in ps[0][0]):
        raise Undecidable("several paths")
    return Sym(e).term(ps[0][1])


def neg(e):
    """-e in the ring, and e == Neg/One-minus normal forms"""
    return T.sub(T.C(e.w, 0), e, True)


def symmetric(kind, ps, w):
    """tanh(-a) = -tanh(a); logistic(-a) = One - logistic(a): for a in [1, max], result terms agree"""
    mx = (1 << (w - 1)) - 1
    a = T.var("pos%d" % w, w, 1, mx)
    p, n = sym(ps, a), sym(ps, neg(a))

    def ring(e):
        # Neg(x) and Sub(x, y) as ring operations (two's complement), everything else opaque
        s = e.single
        if s is not None:
            op, _, ww = split_op(s.op)
            if op == "Neg":
                return T.sub(T.C(ww, 0), ring(s.args[0]))
            if op == "Sub":
                return T.sub(ring(s.args[0]), ring(s.args[1]))
        return T.E(e.w, e.t)
    want = T.sub(T.C(w, 0), ring(p)) if kind == "tanh" else T.sub(T.C(w, mx), ring(p))
    return ring(n) == want, repr(T.sub(ring(n), want))[:200]


# ------------------------------------------------------------------ tasks
TOL = {"expint": (500, 2), "exp": ((3, 650), 2), "omx": (130, 12), "oox": (65, 6), "tanh": (430, 13), "logistic": (215, 7)}      # as search/acc_tol.h
REF = {"expint": "exp", "oox": "inv"}


def domain(fn, w):
    m = 1 << (w - 1)
    return {"exp": (-m, 0), "expint": (-m // 4, -1), "omx": (0, m - 1), "oox": (0, m - 1)}.get(fn, (-m, m - 1))


def t_acc(config, func, ib, w):
    fn = func
    import time
    obls = []

    def ob(name, status, detail="", model=None, reason="", approx=False, t=0.0):
        r = solve.Result("unsat" if status == "discharged" else "sat", model)
        r.solver, r.reason, r.approx, r.time = "interval Taylor models" if w == 32 else "exhaustive evaluation", reason, approx, t
        o = Obligation(name, "a_%s_%d_%d" % (fn, ib, w), status, r)
        o.detail = detail
        obls.append(ob_dict(o))
    tol = TOL[fn][0 if w == 32 else 1]
    lo, hi = domain(fn, w)
    t0 = time.time()
    name = "|%s - exact| <= %s units for every input" % (fn, tol if not isinstance(tol, tuple) else "%g + %g*exp(x)" % tol)
    undec = None
    try:
        ps = paths("a_%s_%d_%d" % (fn, ib, w), w)
        try:
            step = 1 << max(w - 1 - ib - (6 if fn in ("tanh", "logistic") else 5), 4)
            worst, n, pts = check(ps, REF.get(fn, fn), ib, w, lo, hi, tol, step)
            ob(name, "discharged", "bound %.2f, %d intervals, %d points" % (worst, n, pts), t=time.time() - t0)
        except Failing as e:
            a, r, err = e.args
            ob(name, "refuted", "input %d: result %d, error %.2f" % (a, r, err), {"a": a}, t=time.time() - t0)
        z = {"exp": (1 << (w - 1)) - 1, "tanh": 0, "logistic": 1 << (w - 2)}.get(fn)
        if z is not None:
            r = int(exact(ps, np.array([0]))[0])
            ob("%s(0) is exactly %s" % (fn, {"exp": "One", "tanh": "0", "logistic": "one half"}[fn]), "discharged" if r == z else "refuted", "%d" % r, {"a": 0})
        if fn in ("tanh", "logistic"):
            nm = "tanh(-x) = -tanh(x)" if fn == "tanh" else "logistic(-x) = One - logistic(x)"
            if w == 16:
                a = np.arange(1, 1 << 15)
                p, n = exact(ps, a), exact(ps, -a)
                bad = np.nonzero(n != (-p if fn == "tanh" else 32767 - p))[0]
                ob(nm, "refuted" if len(bad) else "discharged", "", {"a": int(a[bad[0]])} if len(bad) else None)
            else:
                try:
                    same, d = symmetric(fn, ps, w)
                except Undecidable as e:
                    same, d = False, str(e)
                if same:
                    ob(nm, "discharged")
                else:
                    undec = "%s: %s" % (nm, d)
    except Undecidable as e:
        undec = str(e)
    out = {"obls": obls}
    if undec:
        out["error"] = "Undecided: " + undec
    return out


def witness(t, result, prop):
    """the counterexample input on the real code"""
    import os
    b = build.native([os.path.join(build.VERIF, "search", "acc_search.cc")], "x86_default", "acc_search")
    for o in result["obls"]:
        if o["status"] == "refuted" and "a" in (o.get("model") or {}):
            mode = "%s:%d:%d:%d" % (t.kw["func"], t.kw["ib"], t.kw["w"], o["model"]["a"])
            rc, so, se = build.run_native(b, "x86_default", [mode, 1, 1], timeout=60)
            if "FAIL " in so and "NOFAIL" not in so:
                ls = so.strip().splitlines()
                return {"obligation": ls[0], "inputs": ls[1] if len(ls) > 1 else "", "native_output": so[:600], "how": "the evaluation's own counterexample, replayed",
                        "replay_cmd": "acc_search %s 1 1" % mode}, so[:300]
    return None, "the counterexample did not replay"


def tasks(quick):
    from .runner import Task
    t = []
    for w in (32, 16):
        for fn in ("exp", "tanh", "logistic"):
            for ib in range(7):
                t.append(Task("acc/%s_%d_%d" % (fn, ib, w), t_acc, timeout=300, witness=witness, config="x86_default", func=fn, ib=ib, w=w))
        for fn in ("expint", "omx", "oox"):
            t.append(Task("acc/%s_0_%d" % (fn, w), t_acc, timeout=300, witness=witness, config="x86_default", func=fn, ib=0, w=w))
    return t
