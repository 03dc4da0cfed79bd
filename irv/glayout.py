"""Lemmas over the packed layout used by the pack and compute contracts (no code: pure arithmetic, all block counts).

Block (a, q, b) - a: width / kernel width, q: depth run, b: register block inside the run - lives at
P = m*s + a*run + b (in units of one register block), s = n1*q, run = min(n1, n2 - s); m, n1, n2 >= 1 are the numbers of register
blocks of the l2 width, the l1 depth and the l2 depth."""
import time
import z3
from . import solve
from .exec import Obligation


class Eng:
    def __init__(self):
        self.obls, self.reached, self.steps = [], {"cover:end"}, 0


def run_layout(config=None):
    en = Eng()
    I = z3.Int
    m, n1, n2, a, q, b, a2, q2, b2, s, s2, run, run2 = [I(x) for x in "m n1 n2 a q b a2 q2 b2 s s2 run run2".split()]

    def blk(a, q, b, s, run):
        return [a >= 0, a <= m - 1, q >= 0, b >= 0, b <= run - 1, s == n1 * q, s + b < n2,
                run == z3.If(n1 <= n2 - s, n1, n2 - s), run >= 1]
    base = [m >= 1, n1 >= 1, n2 >= 1]
    P = m * s + a * run + b
    P2 = m * s2 + a2 * run2 + b2

    def lemma(name, hyp, goal):
        t0 = time.time()
        sv = z3.Solver()
        sv.set("timeout", 20000)
        sv.add(*hyp)
        sv.add(z3.Not(goal))
        r = sv.check()
        st = {"unsat": "discharged", "sat": "refuted"}.get(str(r), "undecided")
        en.obls.append(Obligation("layout: " + name, "lemma", st, solve.Result(str(r), time=time.time() - t0, mode="nia")))
        solve.STATS["time"] += time.time() - t0
        solve.STATS["queries"] += 1
    x = I("x")
    # products as named values with the instances of monotonicity that are needed
    lemma("a block stays below the end of its run's slab", [a >= 0, a <= m - 1, b <= run - 1, run >= 1], a * run + b <= m * run - 1)
    lemma("slabs are bounded by the block", [m >= 1, s + run <= n2], m * (s + run) <= m * n2)
    lemma("address is not negative", [m >= 1, s >= 0, a >= 0, run >= 1, b >= 0], P >= 0)
    lemma("address stays below the reserved size",
          [m >= 1, a * run + b <= m * run - 1, m * (s + run) <= m * n2], P <= m * n2 - 1)
    lemma("a later run starts after an earlier one ends", [n1 >= 1, q >= 0, q2 >= q + 1], n1 * q2 >= n1 * q + n1)
    lemma("later runs lie in later slabs", [m >= 1, s2 >= s + n1, run <= n1, a * run + b <= m * run - 1, a2 >= 0, run2 >= 1, b2 >= 0,
                                              m * (s + n1) <= m * s2, m * run <= m * n1, a2 * run2 >= 0], P < P2)
    lemma("slab order", [m >= 1, s2 >= s + n1], m * (s + n1) <= m * s2)
    lemma("slab size", [m >= 1, run <= n1], m * run <= m * n1)
    lemma("sign of a product", [a2 >= 0, run2 >= 1], a2 * run2 >= 0)
    lemma("in one run, later widths lie after earlier ones", [run >= 1, a2 >= a + 1, b <= run - 1, b2 >= 0, a2 * run >= a * run + run],
          a * run + b < a2 * run + b2)
    lemma("width order", [run >= 1, a2 >= a + 1], a2 * run >= a * run + run)
    lemma("in one run and width, later depths lie after earlier ones", [b < b2], a * run + b < a * run + b2)
    lemma("the run length is the rest of the depth, at most one run",
          base + [q >= 0, s == n1 * q, s + b < n2, b >= 0, run == z3.If(n1 <= n2 - s, n1, n2 - s)], z3.And(run >= 1, run <= n1, s + run <= n2))
    lemma("a run followed by another is complete", base + [s2 >= s + n1, s2 <= n2 - 1, run == z3.If(n1 <= n2 - s, n1, n2 - s)], run == n1)
    ring(en)
    return en, [None]


def ring(en):
    """accumulator, sums and offset terms combine to the product with offsets: induction on the depth, in the ring of 32-bit words"""
    from . import term as T
    v = lambda n: T.var("ring." + n, 32)
    add, mul = T.add, T.mul
    sl, sr, lo, ro, zl, zr, acc, ls, rs, n = [v(x) for x in "sl sr lo ro zl zr acc ls rs n".split()]
    one = T.C(32, 1)

    def total(acc, ls, rs, n):
        L, R = add(lo, zl), add(ro, zr)
        return add(add(acc, mul(ls, R)), mul(add(rs, mul(R, n)), L))
    pl, pr = T.sub(sl, zl), T.sub(sr, zr)
    step = T.sub(total(add(acc, mul(pl, pr)), add(ls, pl), add(rs, pr), add(n, one)), total(acc, ls, rs, n))
    z = T.C(32, 0)
    for name, a, b in (("empty depth contributes nothing", total(z, z, z, z), z),
                       ("one more depth adds (lhs + lhs offset) * (rhs + rhs offset)", step, mul(add(sl, lo), add(sr, ro))),
                       ("a padded depth (both entries zero points) changes neither accumulator nor sums", mul(T.sub(zl, zl), pr), z)):
        ok = T.cmp("eq", a, b) == T.TRUE
        en.obls.append(Obligation("offset expansion: " + name, "lemma", "discharged" if ok else "undecided", solve.Result("unsat" if ok else "unknown", solver="normal-form")))
