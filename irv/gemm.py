"""Contracts of the block-level operations, checked at every call made by the real outer loops.

The ghost target (R, C) is an arbitrary entry of the result; tracked ghost 'tgt' counts how many block operations
produced that entry.  Contracts (each proved for the real function elsewhere):
  Init      (C05)  block sizes: positive multiples of the register block, l2_depth = depth rounded up to 16
  PackLhs/PackRhs  (pack harness)    packed block + sums := source block
  Compute          (compute harness) packed result := packed lhs * packed rhs
  UnpackResult     (unpack harness)  result block := pipeline(packed result + offset corrections)
"""
import re
from . import build, term as T, solve
from .exec import Ptr, Stop, Undecided, State, Obligation
from .loops import LoopEngine

I32 = lambda v: T.C(32, v)
ROW = 1
KEEP = ("HowManyThreads", "7RoundUpIL")


def h_roundup(en, st, a, I):
    """RoundUp<M>(i), i >= 0: the multiple of M in [i, i + M - 1] (proved by bparams.run_helpers)"""
    m = int(re.search(r"RoundUpIL[a-z](\d+)E", I.x["callee"].v).group(1))
    i = a[0]
    for b, n in ((T.cmp("sge", i, I32(0)), "RoundUp argument >= 0"), (T.cmp("sle", i, I32((1 << 31) - m)), "RoundUp does not overflow")):
        en.prove(st, b, n, "")
        st.assume(b)
    j = T.add(i, I32(m - 1), True)
    return [(st, T.sub(j, T.div("srem", j, I32(m)), True))]


class Gemm:
    def __init__(self, config, defs="", timeout=20):
        self.mod = build.module("gemm_outer.cc", config, defs=defs, keep=KEEP)
        self.config = config
        self.timeout = timeout

    # ---- helpers
    def stt(self, st, b, en, name, where=""):
        en.prove(st, b, name, where)
        st.assume(b)

    def req(self, en, st, b, name):
        en.prove(st, b, name, "")
        st.assume(b)

    def peq(self, en, st, p, q, name):
        if not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj == q.obj):
            en.prove(st, T.FALSE, name, "%r vs %r" % (p, q))
            return
        self.req(en, st, T.cmp("eq", p.off, q.off), name)

    def addr(self, en, order, data, stride, i, j, es=1):
        o = T.add(i if order != ROW else T.mul(i, stride, True), j if order == ROW else T.mul(j, stride, True), True)
        return Ptr(data.obj, T.add(data.off, T.scale(T.sext(o, en.pb), es, True), True))

    def engine(self, pre):
        hooks = {n: (lambda n: lambda en, st, a, I: getattr(self, n)(en, st, a, I))(n)
                 for n in dir(self) if n.startswith("g_")}
        hooks["*HowManyThreads"] = self.g_howmany
        hooks["*7RoundUpIL"] = h_roundup
        en = LoopEngine(self.mod, hooks=hooks, timeout=self.timeout)
        en.tracked = ["tgt"]
        st = State()
        v = {}
        for n in ("rows", "cols", "depth", "ls", "rs", "ds", "R", "C"):
            v[n] = T.var(n, 32, 0, (1 << 31) - 1)
        v["threads"] = T.var("threads", 32, 0, (1 << 31) - 1)   # 0: as many as the hardware has
        st.assume(T.cmp("sle", v["rows"], I32((1 << 31) - 65)))
        for n in ("lov", "rov"):
            v[n] = T.var(n, 32)
        for n in ("l", "r", "d", "lo", "ro", "ctx", "pipe", "kernel"):
            v[n] = en.new_obj(st, n)
            en.objs[v[n].obj].meta = {"align": 1}
        for n in ("rows", "cols", "depth"):
            st.assume(T.cmp("sge", v[n], I32(1)))
        st.assume(T.cmp("sge", v["rows"], v["cols"]))
        st.assume(T.cmp("slt", v["R"], v["rows"]))
        st.assume(T.cmp("slt", v["C"], v["cols"]))
        st.ghost["tgt"] = I32(0)
        self.v = v
        self.init_facts = None
        return en, st, v

    # ---- contracts
    def g_init(self, en, st, a, I):
        bp, kr, kc, kd, kg, rows, cols, depth, th = a
        for e, n in ((rows, "rows"), (cols, "cols"), (depth, "depth"), (th, "num_threads")):
            self.req(en, st, T.cmp("sge", e, I32(1)), "Init requires %s >= 1" % n)
        fs = []

        def mult(nm, k):
            q = T.fresh(nm + "_q", 32, 1, (1 << 31) - 1)
            return T.scale(q, k, True)
        l1r, l2r = mult("l1r", kr.const), mult("l2r", kr.const)
        l2c = mult("l2c", kc.const)
        l1c = l2c
        l1d, l2d = mult("l1d", kg.const), mult("l2d", kg.const)
        st.assume(T.cmp("sge", l2d, depth))
        st.assume(T.cmp("slt", T.sub(l2d, depth, True), kg))
        for e in (l1r, l2r, l2c, l1d, l2d):
            st.assume(T.cmp("sle", e, I32((1 << 31) - 1)))
        for i, e in enumerate((l1r, l1c, l1d, l2r, l2c, l2d)):
            m = st.wmem(bp.obj)
            m[bp.off.const + 4 * i] = (e, 4)
        st.ghost["init"] = (rows, cols, depth, l2r, l2c, l2d)
        return [(st, None)]

    def g_alloc(self, en, st, a, I):
        k = ("commit", a[0].obj, repr(a[0].off))
        cur = st.ghost.get(k, "no")
        if a[1].const == 1:
            en.prove(st, T.bconst(cur == "no"), "allocator committed only once", "")
            st.ghost[k] = "yes"
        else:
            en.prove(st, T.bconst(cur == "yes"), "allocator decommitted after commit", "")
            st.ghost[k] = "no"
        return [(st, None)]

    def committed(self, en, st, al):
        return st.ghost.get(("commit", al[0], al[1]), "no") == "yes"

    def g_psb_init(self, en, st, a, I):
        pid, al, side, l2r, l2c, l2d = a
        al = (al.obj, repr(al.off))
        en.prove(st, T.bconst(not self.committed(en, st, al)), "packed block reserved before the allocator is committed", "")
        st.ghost[("psb", pid.obj)] = (side.const, l2r if side.const == 0 else l2c, l2d, al[0], al[1])
        return [(st, None)]

    def g_res_init(self, en, st, a, I):
        rid, al, l2r, l2c = a
        al = (al.obj, repr(al.off))
        en.prove(st, T.bconst(not self.committed(en, st, al)), "packed result reserved before the allocator is committed", "")
        st.ghost[("rb", rid.obj)] = (l2r, l2c, al[0], al[1])
        return [(st, None)]

    def g_pack(self, en, st, a, I):
        side, pid, order, data, rows, cols, stride = a
        p = st.ghost.get(("psb", pid.obj))
        if p is None or p[0] == "havoc":
            raise Undecided("pack into unknown block")
        en.prove(st, T.bconst(p[0] == side.const), "packed into a block of the same side", "")
        en.prove(st, T.bconst(self.committed(en, st, p[3:5])), "pack after the allocator is committed", "")
        en.prove(st, T.bconst(st.ghost.get("pending", "no") == "no"), "packed rhs not overwritten while tasks use it", "")
        w, d = (rows, cols) if side.const == 0 else (cols, rows)
        self.req(en, st, T.cmp("sle", w, p[1]), "packed width fits the l2 block")
        self.req(en, st, T.cmp("sle", d, p[2]), "packed depth fits the l2 block")
        self.req(en, st, T.band(T.cmp("sge", w, I32(0)), T.cmp("sge", d, I32(1))), "packed block is not negative")
        st.ghost[("pk", pid.obj)] = (order.const, data, rows, cols, stride)
        return [(st, None)]

    def content(self, st, pid):
        c = st.ghost.get(("pk", pid.obj))
        if c is not None and c[0] == "havoc":
            raise Undecided("contents of a packed block not known at a loop head")
        return c

    def g_compute(self, en, st, a, I):
        k, l2r, l2c, l2d, rid, lid, rd, depth = a
        self.peq(en, st, k, self.v["kernel"], "the caller's kernel is used")
        rb = st.ghost.get(("rb", rid.obj))
        if en.skim and any((st.ghost.get(("pk", x.obj)) or ("havoc",))[0] == "havoc" for x in (lid, rd)):
            st.ghost[("res", rid.obj)] = ("havoc", "skim")      # only looking for what a loop changes
            return [(st, None)]
        cl, cr = self.content(st, lid), self.content(st, rd)
        en.prove(st, T.bconst(cl is not None), "lhs block is packed when computing", "")
        en.prove(st, T.bconst(cr is not None), "rhs block is packed when computing", "")
        if rb is None or cl is None or cr is None:
            raise Stop()
        en.prove(st, T.bconst(self.committed(en, st, rb[2:4])), "compute after the allocator is committed", "")
        pl, pr = st.ghost[("psb", lid.obj)], st.ghost[("psb", rd.obj)]
        for x, y, n in ((l2r, rb[0], "rows of the result block"), (l2c, rb[1], "cols of the result block"),
                        (l2r, pl[1], "rows of the packed lhs"), (l2c, pr[1], "cols of the packed rhs"),
                        (l2d, pl[2], "depth of the packed lhs"), (l2d, pr[2], "depth of the packed rhs")):
            self.req(en, st, T.cmp("eq", x, y), "block parameters agree: " + n)
        self.req(en, st, T.cmp("eq", cl[3], depth), "compute depth equals the packed lhs depth")
        self.req(en, st, T.cmp("eq", cr[2], depth), "compute depth equals the packed rhs depth")
        self.req(en, st, T.cmp("sle", depth, l2d), "compute depth fits the l2 block")
        st.ghost[("res", rid.obj)] = (lid.obj, cl, rd.obj, cr, depth)
        return [(st, None)]

    def g_unpack(self, en, st, a, I):
        (order, data, rows, cols, stride, r0, c0, rs, cs, rid, depth, lsum, rsum, lo, losz, ro, rosz, pipe) = a
        v = self.v
        res = st.ghost.get(("res", rid.obj))
        if en.skim and (res is None or res[0] == "havoc"):
            self.cover(en, st, r0, rs, c0, cs)
            return [(st, None)]
        if res is not None and res[0] == "havoc":
            raise Undecided("contents of the result block not known at a loop head")
        en.prove(st, T.bconst(res is not None), "the result block has been computed", "")
        if res is None:
            raise Stop()
        lid, cl, rd, cr, rdepth = res
        en.prove(st, T.bconst(lsum.obj == lid and rsum.obj == rd), "sums belong to the multiplied blocks", "")
        now_l, now_r = st.ghost.get(("pk", lid)), st.ghost.get(("pk", rd))
        en.prove(st, T.bconst(en.same(now_l, cl) and en.same(now_r, cr)), "sums are those of the multiplied blocks", "")
        self.req(en, st, T.cmp("eq", rdepth, depth), "unpack depth equals the computed depth")
        self.req(en, st, T.cmp("eq", depth, v["depth"]), "the whole depth is multiplied")
        # the result view is the caller's
        self.peq(en, st, data, v["d"], "result data pointer")
        for x, y, n in ((rows, v["rows"], "rows"), (cols, v["cols"], "cols"), (stride, v["ds"], "stride")):
            self.req(en, st, T.cmp("eq", x, y), "result view " + n)
        en.prove(st, T.bconst(order.const == self.order[2]), "result view order", "")
        self.peq(en, st, pipe, v["pipe"], "the caller's output pipeline is used")
        z = I32(0)
        self.req(en, st, T.band(T.cmp("sge", r0, z), T.cmp("sge", c0, z), T.cmp("sge", rs, z), T.cmp("sge", cs, z),
                                T.cmp("sle", T.add(r0, rs, True), v["rows"]),
                                T.cmp("sle", T.add(c0, cs, True), v["cols"])), "unpacked block lies inside the result")
        # packed operands are the rows r0.. and the columns c0..
        self.req(en, st, T.cmp("sle", rs, cl[2]), "every unpacked row was packed")
        self.req(en, st, T.cmp("sle", cs, cr[3]), "every unpacked column was packed")
        en.prove(st, T.bconst(cl[0] == self.order[0] and cr[0] == self.order[1]), "operand orders", "")
        self.peq(en, st, cl[1], self.addr(en, self.order[0], v["l"], v["ls"], r0, z), "lhs block starts at the result block's first row")
        self.peq(en, st, cr[1], self.addr(en, self.order[1], v["r"], v["rs"], z, c0), "rhs block starts at the result block's first column")
        self.req(en, st, T.band(T.cmp("eq", cl[4], v["ls"]), T.cmp("eq", cr[4], v["rs"])), "operand strides")
        # offsets
        self.offs(en, st, lo, losz, "lo", "lov", r0, rs, "lhs offset")
        self.offs(en, st, ro, rosz, "ro", "rov", c0, cs, "rhs offset")
        self.cover(en, st, r0, rs, c0, cs)
        return [(st, None)]

    def offs(self, en, st, o, sz, vn, dn, at, n, name):
        if self.kind == "v":
            self.peq(en, st, o, Ptr(self.v[vn].obj, T.scale(T.sext(at, en.pb), 4, True)),
                     name + " block starts at the result block's own first entry")
        else:
            x = o.off if isinstance(o, Ptr) and o.obj == "null" else None
            en.prove(st, T.bconst(x is not None and T.trunc(x, 32) == self.v[dn]), name + " value", "%r" % (o,))
        self.req(en, st, T.cmp("sle", n, sz), name + " vector covers the block")

    def cover(self, en, st, r0, rs, c0, cs):
        R, C = self.v["R"], self.v["C"]
        en.hints.append([(r0, T.add(r0, rs, True), R), (c0, T.add(c0, cs, True), C)])
        cov = T.band(T.cmp("sle", r0, R), T.cmp("slt", R, T.add(r0, rs, True)), T.cmp("sle", c0, C),
                     T.cmp("slt", C, T.add(c0, cs, True)))
        self.count(en, st, cov)

    def count(self, en, st, cov):
        g = st.ghost["tgt"]
        st.ghost["tgt"] = T.add(g, T.ite(cov, I32(1), I32(0)), True)

    # multi-threaded driver
    def g_howmany(self, en, st, a, I):
        mx, rows, cols, depth = a
        v = self.v
        self.req(en, st, T.cmp("eq", mx, v["threads"]), "thread limit passed on")
        for x, n in ((rows, "rows"), (cols, "cols"), (depth, "depth")):
            self.req(en, st, T.cmp("eq", x, v[n]), "HowManyThreads: " + n)
        t = T.fresh("task_count", 32, 1, (1 << 31) - 1)
        st.assume(T.cmp("sle", t, v["rows"]))
        st.assume(T.bor(T.cmp("eq", mx, I32(0)), T.cmp("sle", t, mx)))
        return [(st, t)]

    def g_push(self, en, st, a, I):
        vec, task = a
        st.ghost["pending"] = "yes"
        return en.run("@see_%s%d%d%d" % ((self.kind,) + self.order), [task], st)

    def g_execute(self, en, st, a, I):
        st.ghost["pending"] = "no"
        return [(st, None)]

    def g_task(self, en, st, a, I):
        (lorder, ldata, lrows, lcols, lstride, prhs, order, data, rows, cols, stride, r0, c0, rs, cs, lo, losz, ro, rosz,
         l2r, l2c, l2d, pipe, kernel) = a
        v = self.v
        z = I32(0)
        self.peq(en, st, data, v["d"], "task: result data pointer")
        for x, y, n in ((rows, v["rows"], "rows"), (cols, v["cols"], "cols"), (stride, v["ds"], "stride"),
                        (lcols, v["depth"], "depth"), (lstride, v["ls"], "lhs stride"), (lrows, rs, "lhs rows")):
            self.req(en, st, T.cmp("eq", x, y), "task: " + n)
        self.req(en, st, T.band(T.cmp("sge", r0, z), T.cmp("sge", c0, z), T.cmp("sge", rs, z), T.cmp("sge", cs, z),
                                T.cmp("sle", T.add(r0, rs, True), v["rows"]),
                                T.cmp("sle", T.add(c0, cs, True), v["cols"])), "task: block lies inside the result")
        self.peq(en, st, ldata, self.addr(en, self.order[0], v["l"], v["ls"], r0, z), "task: lhs block starts at its first row")
        cr = self.content(st, prhs)
        en.prove(st, T.bconst(cr is not None), "task: rhs is packed", "")
        if cr is None:
            raise Stop()
        self.peq(en, st, cr[1], self.addr(en, self.order[1], v["r"], v["rs"], z, c0), "task: packed rhs starts at its first column")
        self.req(en, st, T.band(T.cmp("eq", cr[2], v["depth"]), T.cmp("eq", cr[4], v["rs"]), T.cmp("sle", cs, cr[3])),
                 "task: packed rhs covers the block's columns and the whole depth")
        self.req(en, st, T.cmp("sle", cs, l2c), "task: columns fit one l2 block")
        pr = st.ghost[("psb", prhs.obj)]
        self.req(en, st, T.band(T.cmp("eq", pr[1], l2c), T.cmp("eq", pr[2], l2d)), "task: packed rhs has the task's block parameters")
        ini = st.ghost.get("init")
        self.req(en, st, T.band(T.cmp("eq", l2r, ini[3]), T.cmp("eq", l2c, ini[4]), T.cmp("eq", l2d, ini[5]),
                                T.cmp("eq", ini[2], v["depth"])), "task: block parameters are the initialised ones")
        self.offs(en, st, lo, losz, "lo", "lov", z, v["rows"], "task: lhs offset")
        self.offs(en, st, ro, rosz, "ro", "rov", z, v["cols"], "task: rhs offset")
        self.peq(en, st, pipe, v["pipe"], "task: the caller's output pipeline")
        self.peq(en, st, kernel, v["kernel"], "task: the caller's kernel")
        self.cover(en, st, r0, rs, c0, cs)
        return [(st, None)]

    def g_single(self, en, st, a, I):
        (ctx, k, lorder, ld, lr, lc, ls, rorder, rd, rr, rc, rs, order, d, rows, cols, ds, lo, losz, ro, rosz, pipe) = a
        v = self.v
        self.peq(en, st, ctx, v["ctx"], "single: context")
        self.peq(en, st, k, v["kernel"], "single: kernel")
        for x, y in ((ld, "l"), (rd, "r"), (d, "d"), (pipe, "pipe")):
            self.peq(en, st, x, v[y], "single: pointer " + y)
        for x, y in ((lr, "rows"), (lc, "depth"), (ls, "ls"), (rr, "depth"), (rc, "cols"), (rs, "rs"), (rows, "rows"),
                     (cols, "cols"), (ds, "ds")):
            self.req(en, st, T.cmp("eq", x, v[y]), "single: " + y)
        en.prove(st, T.bconst((lorder.const, rorder.const, order.const) == self.order), "single: orders", "")
        self.offs(en, st, lo, losz, "lo", "lov", I32(0), v["rows"], "single: lhs offset")
        self.offs(en, st, ro, rosz, "ro", "rov", I32(0), v["cols"], "single: rhs offset")
        self.count(en, st, T.TRUE)
        return [(st, None)]

    def g_end(self, en, st, a, I):
        want = I32(1) if self.inside is None else T.ite(self.inside, I32(1), I32(0))
        en.prove(st, T.cmp("eq", st.ghost["tgt"], want), "every result entry is produced exactly once", "")
        en.prove(st, T.bconst(st.ghost.get("pending", "no") == "no"), "all tasks executed", "")
        st.trace.append("end")
        en.reached.add("cover:end")
        return [(st, None)]


def run_outer(config, what, kind, order, timeout=20):
    g = Gemm(config, timeout=timeout)
    g.order, g.kind = tuple(order), kind
    g.inside = None
    en, st, v = g.engine(None)
    args = [v[n] for n in ("ctx", "l", "ls", "r", "rs", "d", "ds", "rows", "cols", "depth", "lo", "ro", "lov", "rov", "pipe", "kernel", "threads")]
    name = "%s%d%d%d" % ((kind,) + g.order)
    if what == "tk":
        r0, c0, br, bc = [T.var(n, 32, 0, (1 << 31) - 1) for n in ("r0", "c0", "br", "bc")]
        st.assume(T.cmp("sle", T.add(r0, br, True), v["rows"]))
        st.assume(T.cmp("sle", T.add(c0, bc, True), v["cols"]))
        ma, al, bp = [en.new_obj(st, n) for n in ("mainalloc", "alloc", "bp")]
        args = [ma, al, bp, r0, c0, br, bc] + args
        R, C = v["R"], v["C"]
        g.inside = T.band(T.cmp("sle", r0, R), T.cmp("slt", R, T.add(r0, br, True)), T.cmp("sle", c0, C),
                          T.cmp("slt", C, T.add(c0, bc, True)))
    f = "@%s_%s" % (what, name)
    if f not in g.mod.funcs:
        raise Undecided("no entry point " + f)
    rets = en.run(f, args, st)
    return en, rets


def run_howmany(config, timeout=20):
    """HowManyThreads: 1 <= result <= rows, and <= the caller's limit unless that is 0 (= hardware)"""
    g = Gemm(config, timeout=timeout)
    en, st, v = g.engine(None)
    fn = [n for n in g.mod.funcs if "HowManyThreads" in n]
    if len(fn) != 1:
        raise Undecided("HowManyThreads not found")
    rets = en.run(fn[0], [v["threads"], v["rows"], v["cols"], v["depth"]], st)
    for s, r in rets:
        en.prove(s, T.cmp("sge", r, I32(1)), "HowManyThreads >= 1", "")
        en.prove(s, T.cmp("sle", r, v["rows"]), "HowManyThreads <= rows", "")
        en.prove(s, T.bor(T.cmp("eq", v["threads"], I32(0)), T.cmp("sle", r, v["threads"])), "HowManyThreads <= limit", "")
        en.reached.add("cover:end")
    return en, rets
