"""Kernels written in inline assembly: symbolic execution of the assembly text found in the IR of the real kernel, with loops
handled by induction (no unrolling bound).

At a loop head every register (per vector lane) is generalised from the first iteration: unchanged, linear in the iteration number,
a value read from memory whose address moves with the iteration, or an accumulator A; anything else is unknown.  The generalisation is
then proved inductive over one arbitrary iteration t; an accumulator must come back as A + f(t) with f free of accumulators and
unknowns.  At the end every stored value must be the old one (or zero) plus the sum over the loops of their f(t) plus straight-line
products, and these must be exactly the products of the cells 0, 1, 2, ... in the packed format."""
import re
from . import term as T, solve
from .exec import Ptr, Stop, Undecided, Agg, Obligation

C = T.C


class V:
    """vector register: lanes of width w, lowest first"""
    __slots__ = ("w", "l")

    def __init__(self, w, l):
        self.w, self.l = w, list(l)

    def lanes(self, w):
        if w == self.w:
            return self.l
        if w < self.w:
            return [T.extract(x, o, w) for x in self.l for o in range(0, self.w, w)]
        k = w // self.w
        return [T.concat(self.l[i:i + k]) for i in range(0, len(self.l), k)]

    def bits(self):
        return self.w * len(self.l)

    def low(self, n):
        return V(self.w, self.l[:n // self.w]) if n % self.w == 0 else V(8, self.lanes(8)[:n // 8])

    def high(self, n):
        return V(self.w, self.l[-(n // self.w):])


def bad(what):
    raise Undecided("assembly: " + what)


OPND = re.compile(r"\$\{?(\d+)(?::(\w))?\}?")


class Ins:
    __slots__ = ("m", "ops", "text")

    def __init__(self, m, ops, text):
        self.m, self.ops, self.text = m, ops, text


def split_ops(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        if ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(text):
    text = text.replace("\\0A", "\n").replace("\\09", "\t").replace("${:uid}", "_uid").replace(";", "\n")
    text = re.sub(r"//[^\n]*|/\*.*?\*/|@[^\n]*", "", text, flags=re.S)
    ins, labels = [], {}
    for ln in text.split("\n"):
        ln = ln.strip()
        while True:
            m = re.match(r"^([A-Za-z_.$][\w.$]*|\d+):\s*", ln)
            if not m:
                break
            labels.setdefault(m.group(1), []).append(len(ins))
            ln = ln[m.end():]
        if not ln or (ln.startswith(".") and not ln.startswith(".word")):
            continue
        m = re.match(r"^(\S+)\s*(.*)$", ln)
        ins.append(Ins(m.group(1).lower(), split_ops(m.group(2)), ln))
    return ins, labels


class Machine:
    """shared control: paths, loops, flags; subclasses give the instructions"""

    def __init__(self, en, K, text, cons, args):
        self.en, self.K = en, K
        self.pb = en.pb
        self.ins, self.labels = parse(text)
        self.nout = 0
        self.init = {}
        cs = cons.split(",")
        outs = [c for c in cs if c.startswith("=")]
        self.nout = len(outs)
        for c in outs:
            if c not in ("=r", "=&r"):
                bad("output constraint " + c)
        n, ai = self.nout, 0
        self.clob = set()
        for c in cs[len(outs):]:
            if c.startswith("~"):
                self.clob.add(c[2:-1])
                continue
            if c.isdigit():
                self.init["$%s" % c] = args[ai]
            elif c == "r":
                self.init["$%d" % n] = args[ai]
                n += 1
            else:
                bad("input constraint " + c)
            ai += 1
        self.loops = {}
        for i, I in enumerate(self.ins):
            t = self.target(i)
            if t is not None and t <= i:
                self.loops[t] = max(self.loops.get(t, 0), i)
        self.nloop = 0

    # ---- control flow
    def target(self, i):
        I = self.ins[i]
        if not self.is_jump(I):
            return None
        l = I.ops[-1]
        m = re.match(r"^(\d+)([fb])$", l)
        if m:
            c = [x for x in self.labels.get(m.group(1), []) if (x > i if m.group(2) == "f" else x <= i)]
            if not c:
                bad("label " + l)
            return min(c) if m.group(2) == "f" else max(c)
        if l not in self.labels:
            bad("label " + l)
        return self.labels[l][0]

    def run(self, st):
        rg = dict(self.init)
        rg["loops"] = ()
        return self.go(0, rg, st, None)

    def step(self, pc, rg, st):
        """one instruction -> [(pc, regs, state)]"""
        I = self.ins[pc]
        self.en.steps += 1
        if self.is_jump(I):
            c = self.cond(I, rg)
            t = self.target(pc)
            if c.op == "T":
                return [(t, rg, st)]
            if c.op == "F":
                return [(pc + 1, rg, st)]
            s2 = st.fork()
            st.assume(c)
            s2.assume(T.bnot(c))
            out = []
            if self.en.feas(st):
                out.append((t, rg, st))
            if self.en.feas(s2):
                out.append((pc + 1, dict(rg), s2))
            return out
        self.rg = rg
        self.do(I, rg, st)
        return [(pc + 1, rg, st)]

    def go(self, pc, rg, st, inside):
        """run to the end of the assembly; returns final (regs, state)"""
        work, done = [(pc, rg, st, False)], []
        while work:
            pc, rg, st, skip = work.pop()
            if pc >= len(self.ins):
                done.append((rg, st))
                continue
            if pc in self.loops and not skip:
                for p2, r2, s2 in self.loop(pc, rg, st):
                    work.append((p2, r2, s2, False))
                continue
            for p2, r2, s2 in self.step(pc, rg, st):
                work.append((p2, r2, s2, False))
        return done

    def body(self, head, rg, st):
        """one pass of the loop: (back states, exits)"""
        end = self.loops[head]
        work, back, out = [(head, rg, st, True)], [], []
        while work:
            pc, rg, st, first = work.pop()
            if pc == head and not first:
                back.append((rg, st))
                continue
            if not head <= pc <= end:
                out.append((pc, rg, st))
                continue
            if pc in self.loops and pc != head:
                for p2, r2, s2 in self.loop(pc, rg, st):
                    work.append((p2, r2, s2, False))
                continue
            for p2, r2, s2 in self.step(pc, rg, st):
                work.append((p2, r2, s2, False))
        return back, out

    # ---- loops
    def loop(self, head, rg, st):
        en = self.en
        self.nloop += 1
        if self.nloop > 200:
            bad("too many loops")
        n = self.nloop
        t = T.var("it%d" % n, self.pb, 0, (1 << 31) - 2)
        t1 = T.add(t, C(self.pb, 1), True)
        back, exits = self.body(head, dict(rg), st.fork())
        if not back:                      # never iterates on this path
            return exits
        if len({self.cells(rg, r) for r, _ in back}) > 1:
            return self.steps(head, rg, st, back)
        r1, s1 = back[0]
        wrote = {o for o in s1.mem if s1.mem[o] != st.mem.get(o)}
        if wrote:
            bad("memory written inside a loop")
        # deltas of pointers and counters
        shift = {}
        gen = {}                          # register -> ("gpr", E0, k) | ("ptr", obj, E0, k) | ("vec", w, [lane kinds])
        for r, v in rg.items():
            if r == "loops" or r == "flags":
                continue
            w = r1.get(r)
            if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj == w.obj:
                k = T.sub(w.off, v.off, True).const
                if k is not None:
                    gen[r] = ("ptr", v, k)
                    if k and v.obj in self.K.names:
                        shift.setdefault(v.obj, set()).add(k)
            elif isinstance(v, T.E) and isinstance(w, T.E):
                k = T.sub(w, v, True).const
                if k is not None:
                    gen[r] = ("gpr", v, k)
        sh = {}
        for o, ks in shift.items():
            if len(ks) != 1:
                bad("pointers into one operand advance differently")
            sh[self.K.names[o]] = ks.pop()

        def at(e, tt):
            return self.K.shift(e, {n: T.scale(tt, k, True) for n, k in sh.items()})
        accs = {}
        vec = {}
        for r, v in rg.items():
            w = r1.get(r)
            if not isinstance(v, V) or not isinstance(w, V) or w.bits() != v.bits():
                continue
            kinds = []
            for a, b in zip(v.lanes(w.w), w.l):
                if at(a, C(self.pb, 1)) == b:
                    kinds.append(("mem", a))
                else:
                    A = T.fresh("acc%d" % n, w.w)
                    kinds.append(("acc", a, A))
            vec[r] = (w.w, kinds)
        cand = []
        for r, g in gen.items():
            if g[0] == "gpr" and g[2]:
                cand += [(r, m) for m in (0, 1, 2, 4, 16)]
        while True:
            G = {}
            for r, g in gen.items():
                d = T.scale(t, g[2], True)
                G[r] = Ptr(g[1].obj, T.add(g[1].off, d, True)) if g[0] == "ptr" else T.add(g[1], d, True)
            for r, (w, ks) in vec.items():
                G[r] = V(w, [at(k[1], t) if k[0] == "mem" else k[2] if k[0] == "acc" else T.fresh("unknown", w) for k in ks])
            G["loops"] = rg["loops"]
            sg = st.fork()
            cond = lambda R: [T.cmp("sge", R[r], C(R[r].w, m)) for r, m in cand]
            for b in cond(G):
                sg.assume(b)
            # invariants hold on entry?
            drop = [c for c, b in zip(cand, cond(rg)) if not en.valid(st, b)]
            if drop:
                cand = [c for c in cand if c not in drop]
                continue
            bk, ex = self.body(head, dict(G), sg)
            changed = False
            accids = {k[2].single.id for _, ks in vec.values() for k in ks if k[0] == "acc"}
            f = {}
            for R, S in bk:
                if {o for o in S.mem if S.mem[o] != st.mem.get(o)}:
                    bad("memory written inside a loop")
                for r, g in list(gen.items()):
                    d = T.scale(t1, g[2], True)
                    want = T.add(g[1].off if g[0] == "ptr" else g[1], d, True)
                    x = R.get(r)
                    ok = (isinstance(x, Ptr) and x.obj == g[1].obj and x.off == want) if g[0] == "ptr" else (isinstance(x, T.E) and x == want)
                    if not ok:
                        del gen[r]
                        cand = [c for c in cand if c[0] != r]
                        changed = True
                for r, (w, ks) in list(vec.items()):
                    x = R.get(r)
                    if not isinstance(x, V) or x.bits() != w * len(ks):
                        del vec[r]
                        changed = True
                        continue
                    for i, (k, y) in enumerate(zip(ks, x.lanes(w))):
                        if k[0] == "mem":
                            if y != at(k[1], t1):
                                ks[i] = ("acc", k[1], T.fresh("acc%d" % n, w))
                                changed = True
                        elif k[0] == "acc":
                            d = T.sub(y, k[2])
                            bad_ = self.K.atoms(d) & accids or any(T.A(a).name and T.A(a).name.startswith("unknown") for a in self.K.atoms(d))
                            if bad_ or f.get(k[2].single.id, d) != d:
                                ks[i] = ("unknown",)
                                changed = True
                            f[k[2].single.id] = d
                if not changed:
                    for c, b in zip(list(cand), cond(R)):
                        if not en.valid(S, b):
                            cand.remove(c)
                            changed = True
            if not changed:
                break
        info = (n, t, t1, {k[2].single.id: (k[1], f.get(k[2].single.id, C(w, 0))) for w, ks in vec.values() for k in ks if k[0] == "acc"})
        en.obls.append(Obligation("loop invariant of the kernel is inductive", "loop at '%s'" % self.ins[head].text, "discharged",
                                  solve.Result("unsat", solver="normal-form")))
        out = []
        for pc, R, S in ex:
            R = dict(R)
            R["loops"] = R["loops"] + (info,)
            out.append((pc, R, S))
        return out

    def cells(self, a, b):
        """cells of the packed operands consumed between two register states, None if they are not consumed in step"""
        n = set()
        for r, v in a.items():
            w = b.get(r)
            if isinstance(v, Ptr) and v.obj in self.K.names:
                if not isinstance(w, Ptr) or w.obj != v.obj:
                    return None
                k = T.sub(w.off, v.off, True).const
                B = self.K.cell[self.K.names[v.obj]]
                if k is None or k % B:
                    return None
                n.add(k // B)
        return n.pop() if len(n) == 1 else None

    def steps(self, head, rg, st, back):
        """a loop whose iterations consume different numbers of cells: induction on the cells consumed so far (t).  Accumulators gain the sum
        over the consumed cells of one term per cell"""
        en = self.en
        n = self.nloop
        t = T.var("it%d" % n, self.pb, 0, (1 << 31) - 2)
        r1, _ = min(back, key=lambda b: self.cells(rg, b[0]) or 1 << 40)
        s1 = self.cells(rg, r1)
        if not s1:
            bad("loop iteration consumes no cell")
        gen, vec = {}, {}
        for r, v in rg.items():
            w = r1.get(r)
            if r in ("loops", "flags"):
                continue
            if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj == w.obj:
                k = T.sub(w.off, v.off, True).const
            elif isinstance(v, T.E) and isinstance(w, T.E):
                k = T.sub(w, v, True).const
            elif isinstance(v, V) and isinstance(w, V) and v.bits() == w.bits():
                vec[r] = (w.w, [("same", a) if a == b else ("acc", a, T.fresh("acc%d" % n, w.w)) for a, b in zip(v.lanes(w.w), w.l)])
                continue
            else:
                continue
            if k is not None and k % s1 == 0:
                gen[r] = (v, k // s1)
        sh = {nm: self.K.cell[nm] for nm in self.K.names.values()}

        def at(e, tt):
            return self.K.shift(e, {m: T.scale(tt, k, True) for m, k in sh.items()})
        cand = [(r, m) for r, (v, k) in gen.items() if k and isinstance(v, T.E) for m in (0, 1, 2, 4, 16)]
        cond = lambda R: [T.cmp("sge", R[r], C(R[r].w, m)) for r, m in cand]
        while True:
            G = {"loops": rg["loops"]}
            for r, (v, k) in gen.items():
                G[r] = self.add(v, T.scale(t, k, True))
            for r, (w, ks) in vec.items():
                G[r] = V(w, [k[1] if k[0] == "same" else k[2] if k[0] == "acc" else T.fresh("unknown", w) for k in ks])
            sg = st.fork()
            for b in cond(G):
                sg.assume(b)
            drop = [c for c, b in zip(cand, cond(rg)) if not en.valid(st, b)]
            if drop:
                cand = [c for c in cand if c not in drop]
                continue
            bk, ex = self.body(head, dict(G), sg)
            accids = {k[2].single.id for _, ks in vec.values() for k in ks if k[0] == "acc"}
            changed, f = False, {}
            for R, S in bk:
                if {o for o in S.mem if S.mem[o] != st.mem.get(o)}:
                    bad("memory written inside a loop")
                c = self.cells(G, R)
                if not c:
                    bad("loop iteration consumes no cell")
                for r, (v, k) in list(gen.items()):
                    want, x = self.add(v, T.scale(T.add(t, C(self.pb, c), True), k, True)), R.get(r)
                    if type(x) is not type(want) or (x.obj != want.obj or x.off != want.off if isinstance(x, Ptr) else x != want):
                        del gen[r]
                        cand = [y for y in cand if y[0] != r]
                        changed = True
                for r, (w, ks) in list(vec.items()):
                    x = R.get(r)
                    if not isinstance(x, V) or x.bits() != w * len(ks):
                        del vec[r]
                        changed = True
                        continue
                    for i, (k, y) in enumerate(zip(ks, x.lanes(w))):
                        if k[0] == "same" and y != k[1]:
                            ks[i] = ("acc", k[1], T.fresh("acc%d" % n, w))
                            changed = True
                        elif k[0] == "acc":
                            d = T.sub(y, k[2])
                            if self.K.atoms(d) & accids or any(T.A(a).name and T.A(a).name.startswith(("unknown", "unset")) for a in self.K.atoms(d)):
                                ks[i] = ("unknown",)
                                changed = True
                            else:
                                f.setdefault(k[2].single.id, []).append((c, d))
                if not changed:
                    for c, b in zip(list(cand), cond(R)):
                        if not en.valid(S, b):
                            cand.remove(c)
                            changed = True
            if not changed:
                per = {}
                for r, (w, ks) in vec.items():
                    for i, k in enumerate(ks):
                        if k[0] != "acc":
                            continue
                        l = f.get(k[2].single.id, [])
                        one = [d for c, d in l if c == 1]
                        ok = bool(one)
                        for c, d in l:
                            if ok:
                                for x in range(c):
                                    d = T.sub(d, at(one[0], C(self.pb, x)))
                                ok = not d.t
                        if ok:
                            per[k[2].single.id] = (k[1], one[0])
                        else:
                            ks[i] = ("unknown",)
                            changed = True
            if not changed:
                break
        en.obls.append(Obligation("loop invariant of the kernel is inductive", "loop at '%s'" % self.ins[head].text, "discharged",
                                  solve.Result("unsat", solver="normal-form")))
        out = []
        for pc, R, S in ex:
            R = dict(R)
            # the exiting iteration's registers already include what it added: accumulators count from the iteration's start
            R["loops"] = R["loops"] + ((n, t, T.add(t, C(self.pb, 1), True), per),)
            out.append((pc, R, S))
        return out

    def declared(self, r):
        return r in self.clob

    # ---- operands
    def get(self, rg, r):
        if r not in rg:
            rg[r] = T.fresh("unset", self.pb)
        return rg[r]

    def add(self, a, b):
        if isinstance(a, Ptr):
            return Ptr(a.obj, T.add(a.off, b, True))
        if isinstance(b, Ptr):
            return Ptr(b.obj, T.add(b.off, a, True))
        return T.add(a, b, True)

    def sub(self, a, b):
        if isinstance(a, Ptr) and isinstance(b, T.E):
            return Ptr(a.obj, T.sub(a.off, b, True))
        if isinstance(a, T.E) and isinstance(b, T.E):
            return T.sub(a, b, True)
        bad("pointer difference")

    def local(self, p, n):
        """cells of a buffer on the stack (kept with the registers), or None for another object"""
        if p.obj in self.K.names or self.en.objs[p.obj].handler is not None:
            return None
        o, size = p.off.const, self.en.objs[p.obj].size
        if size is not None and not isinstance(size, int):
            size = size.const
        if o is None or o % 4 or n % 4 or size is None or not 0 <= o <= o + n <= size:
            bad("access to a local buffer")
        return ["@%s+%d" % (p.obj, i) for i in range(o, o + n, 4)]

    def load(self, st, p, n):
        if not isinstance(p, Ptr):
            bad("load through a non-pointer")
        c = self.local(p, n)
        if c is not None:
            for x in c:
                if x not in self.rg:
                    self.rg[x] = V(32, [T.fresh("unset", 32)])
            return V(32, [self.rg[x].l[0] for x in c])
        return self.K.load(st, p, n)

    def store(self, st, p, v):
        if not isinstance(p, Ptr):
            bad("store through a non-pointer")
        c = self.local(p, v.bits() // 8)
        if c is not None:
            for x, e in zip(c, v.lanes(32)):
                self.rg[x] = V(32, [e])
            return
        self.K.store(st, p, v)

    def flagcond(self, rg, c):
        fl = rg.get("flags")
        if fl is None:
            bad("flags not set")
        kind, a, b, res = fl
        z = C(res.w, 0)
        if c == "eq":
            return T.cmp("eq", res, z)
        if c == "ne":
            return T.bnot(T.cmp("eq", res, z))
        if kind == "and":
            return {"s": T.cmp("slt", res, z), "ns": T.cmp("sge", res, z)}.get(c) or bad("condition " + c)
        if c == "s":
            return T.cmp("slt", res, z)
        if c == "ns":
            return T.cmp("sge", res, z)
        if kind == "dec" and c in ("a", "ae", "b", "be"):
            bad("carry after dec")
        m = {"a": "ugt", "ae": "uge", "b": "ult", "be": "ule", "g": "sgt", "ge": "sge", "l": "slt", "le": "sle"}
        if c in m:
            p = m[c]
            if p[0] == "u":        # both sides proved non-negative: compare as integers
                for x in (a, b):
                    lo, hi = T.erange(x)
                    if lo < 0:
                        return self.ucond(p, a, b)
                p = "s" + p[1:]
            return T.cmp(p, a, b)
        bad("condition " + c)

    def ucond(self, p, a, b):
        """unsigned comparison of possibly negative words: a negative word is above every non-negative one"""
        z = C(a.w, 0)
        na, nb = T.cmp("slt", a, z), T.cmp("slt", b, z)
        s = T.cmp("s" + p[1:], a, b)
        gt = p[1] == "g"
        mixed = na if gt else nb
        return T.bor(T.band(T.beq(na, nb), s), T.band(T.bnot(T.beq(na, nb)), mixed))


def sx(e, w):
    return T.sext(e, w)


def zx(e, w):
    return T.zext(e, w)


# ------------------------------------------------------------------ x86
class X86(Machine):
    J = {"js": "s", "jns": "ns", "jz": "eq", "je": "eq", "jnz": "ne", "jne": "ne", "ja": "a", "jae": "ae", "jb": "b", "jbe": "be", "jg": "g",
         "jge": "ge", "jl": "l", "jle": "le", "jmp": None}

    def declared(self, r):
        m = re.match(r"^v(\d+)$", r)
        return bool({"xmm" + m.group(1), "ymm" + m.group(1)} & self.clob) if m else r in self.clob

    def is_jump(self, I):
        return I.m in self.J

    def cond(self, I, rg):
        c = self.J[I.m]
        return T.TRUE if c is None else self.flagcond(rg, c)

    def opnd(self, o):
        o = o.strip()
        if o.startswith("$$"):
            return ("imm", int(o[2:], 0))
        m = re.match(r"^(-?(?:0x[0-9a-fA-F]+|\d+))?\s*\((.*)\)$", o)
        if m:
            parts = [x.strip() for x in m.group(2).split(",")]
            base = self.reg(parts[0]) if parts[0] else None
            idx = self.reg(parts[1]) if len(parts) > 1 and parts[1] else None
            return ("mem", int(m.group(1) or "0", 0), base, idx, int(parts[2], 0) if len(parts) > 2 else 1)
        return ("reg", self.reg(o))

    def reg(self, o):
        o = o.strip()
        if o.startswith("%"):
            return o[1:].strip()
        m = OPND.match(o)
        if m and m.group(2) in (None, "q"):
            return "$" + m.group(1)
        if m and m.group(2) in ("k", "w", "b"):            # low 32, 16, 8 bits: accepted where the instruction says so
            return "$%s:%s" % (m.group(1), m.group(2))
        bad("operand " + o)

    def addr(self, o, rg):
        p = C(64, o[1])
        for r, s in ((o[2], 1), (o[3], o[4])):
            if r:
                v = self.get(rg, r)
                if s != 1:
                    if not isinstance(v, T.E):
                        bad("scaled pointer")
                    v = T.scale(v, s, True)
                p = self.add(v, p)
        return p

    def gval(self, o, rg):
        if o[0] == "imm":
            return C(64, o[1])
        if o[0] == "reg":
            return self.get(rg, o[1])
        bad("operand")

    def vname(self, r):
        return "v" + r[3:], {"x": 128, "y": 256}.get(r[0]) or bad("register " + r)

    def isv(self, o):
        return o[0] == "reg" and re.match(r"^[xy]mm\d+$", o[1])

    def vval(self, o, rg, st, bits):
        if o[0] == "mem":
            return self.load(st, self.addr(o, rg), bits // 8)
        n, b = self.vname(o[1])
        v = rg.get(n)
        if v is None or v.bits() < bits:
            v = V(32, [T.fresh("unset", 32) for _ in range(bits // 32)])
        return v.low(bits) if v.bits() > bits else v

    def setv(self, o, rg, v, vex):
        n, b = self.vname(o[1])
        if v.bits() != b:
            bad("width of " + o[1])
        old = rg.get(n)
        if b == 128 and old is not None and old.bits() == 256:
            hi = V(32, [C(32, 0)] * 4) if vex else V(32, old.lanes(32)[4:])
            v = V(32, v.lanes(32) + hi.l)
        rg[n] = v

    def do(self, I, rg, st):
        m = I.m
        if m.startswith("prefetch") or m in ("nop", "vzeroupper"):
            if m == "vzeroupper":
                bad(m)
            return
        ops = [self.opnd(o) for o in I.ops]
        dst = ops[-1]
        if m in ("movq", "mov") and not any(self.isv(o) for o in ops):
            rg[dst[1]] = self.gval(ops[0], rg)
        elif m in ("xorq", "xor", "xorl") and ops[0] == ops[1]:
            rg[dst[1]] = C(64, 0)
            rg["flags"] = ("and", None, None, C(64, 0))
        elif m in ("shlq", "salq"):
            rg[dst[1]] = T.scale(self.gval(dst, rg), 1 << ops[0][1], True)
            rg["flags"] = None
        elif m == "leaq":
            rg[dst[1]] = self.addr(ops[0], rg)
        elif m in ("addq", "incq"):
            b = C(64, 1) if m == "incq" else self.gval(ops[0], rg)
            rg[dst[1]] = self.add(self.gval(dst, rg), b)
            rg["flags"] = None
        elif m in ("subq", "decq", "cmpq"):
            a = self.gval(dst, rg)
            b = C(64, 1) if m == "decq" else self.gval(ops[0], rg)
            r = self.sub(a, b)
            if m != "cmpq":
                rg[dst[1]] = r
            rg["flags"] = ("dec" if m == "decq" else "sub", a, b, r) if isinstance(r, T.E) else None
        elif m in ("test", "testq", "testl", "testw", "testb"):
            if ops[0] != ops[1]:
                bad(I.text)
            sub = dst[1][-1:] if ":" in dst[1] else "q"
            if m[4:] not in ("", {"k": "l"}.get(sub, sub)):
                bad(I.text)
            v = self.get(rg, dst[1].split(":")[0])
            if sub != "q":
                if not isinstance(v, T.E):
                    bad(I.text)
                v = T.sext(T.trunc(v, {"k": 32, "w": 16, "b": 8}[sub]), 64)
            rg["flags"] = ("and", None, None, v)
        elif m in ("pxor", "vpxor"):
            srcs = ops[:2] if m[0] == "v" else ops
            if srcs[0] != srcs[1]:
                bad(I.text)
            b = self.vname(dst[1])[1]
            self.setv(dst, rg, V(32, [C(32, 0)] * (b // 32)), m[0] == "v")
        elif m in ("movdqu", "vmovdqu", "movdqa", "vmovdqa", "movups"):
            if dst[0] == "mem":
                self.store(st, self.addr(dst, rg), self.vval(ops[0], rg, st, self.vname(ops[0][1])[1]))
            else:
                self.setv(dst, rg, self.vval(ops[0], rg, st, self.vname(dst[1])[1]), m[0] == "v")
        elif m in ("pmovzxbw", "vpmovzxbw", "pmovsxbw", "vpmovsxbw"):
            b = self.vname(dst[1])[1]
            s = self.vval(ops[0], rg, st, b // 2) if ops[0][0] == "mem" else self.vval(ops[0], rg, st, 128).low(b // 2)
            ex = zx if "zx" in m else sx
            self.setv(dst, rg, V(16, [ex(x, 16) for x in s.lanes(8)]), m[0] == "v")
        elif m in ("pshufd", "vpshufd"):
            b = self.vname(dst[1])[1]
            l = self.vval(ops[1], rg, st, b).lanes(32)
            k = ops[0][1]
            self.setv(dst, rg, V(32, [l[g + ((k >> (2 * i)) & 3)] for g in range(0, len(l), 4) for i in range(4)]), m[0] == "v")
        elif m == "vpermq":
            l = self.vval(ops[1], rg, st, 256).lanes(64)
            k = ops[0][1]
            self.setv(dst, rg, V(64, [l[(k >> (2 * i)) & 3] for i in range(4)]), True)
        elif m in ("pmaddwd", "vpmaddwd", "paddd", "vpaddd", "psubd", "vpsubd", "pmulld", "vpmulld"):
            b = self.vname(dst[1])[1]
            x = self.vval(ops[0], rg, st, b)
            y = self.vval(ops[1], rg, st, b)
            if "madd" in m:
                p = [T.mul(sx(u, 32), sx(v, 32)) for u, v in zip(x.lanes(16), y.lanes(16))]
                r = [T.add(p[i], p[i + 1]) for i in range(0, len(p), 2)]
            else:
                f = T.add if "padd" in m else T.mul if "mull" in m else (lambda u, v: T.sub(v, u))
                r = [f(u, v) for u, v in zip(x.lanes(32), y.lanes(32))]
            self.setv(dst, rg, V(32, r), m[0] == "v")
        else:
            bad(I.text)


# ------------------------------------------------------------------ AArch64
LW = {"b": 8, "h": 16, "s": 32, "d": 64}


class Arm(Machine):
    JC = ("eq", "ne", "ge", "lt", "gt", "le")

    def is_jump(self, I):
        return I.m == "b" or re.match(r"^b\.?(eq|ne|ge|lt|gt|le)$", I.m) is not None

    def cond(self, I, rg):
        if I.m == "b":
            return T.TRUE
        c = I.m[-2:]
        return self.flagcond(rg, {"lt": "l", "gt": "g"}.get(c, c))

    def gname(self, o):
        m = OPND.match(o)
        if m:
            if m.group(2) not in (None, "x", "w"):
                bad("operand " + o)
            return "$" + m.group(1)
        if re.match(r"^[xr]\d+$", o):
            return o
        bad("register " + o)

    def gv(self, o, rg):
        if o.startswith("#"):
            return C(self.pb, int(o[1:], 0))
        if o in ("xzr", "wzr"):
            return C(self.pb, 0)
        return self.get(rg, self.gname(o))

    def isg(self, o):
        return OPND.match(o) is not None or re.match(r"^[xr]\d+$", o) is not None

    def scalar(self, I, rg, st):
        """integer instructions common to both; returns False if not one of them.  A 32-bit form (operand modifier w) is the 64-bit one
        where operands and result are proved to fit"""
        w = [o for o in I.ops if re.match(r"^\$\{\d+:w\}$", o)]
        for o in w:
            if not self.fits(st, self.gv(o, rg)):
                bad("32-bit operand " + I.text)
        r = self.scalar_(I, rg)
        if r and w and I.m != "cmp" and not self.fits(st, self.gv(I.ops[0], rg)):
            rg[self.gname(I.ops[0])] = T.fresh("unset", self.pb)
            rg["flags"] = None
        return r

    def fits(self, st, x):
        return isinstance(x, T.E) and self.en.valid(st, T.band(T.cmp("sge", x, C(x.w, 0)), T.cmp("sle", x, C(x.w, (1 << 31) - 1))))

    def scalar_(self, I, rg):
        m, o = I.m, I.ops
        if m in ("pld", "prfm", "nop"):
            return True
        if m not in ("mov", "add", "adds", "sub", "subs", "lsl", "cmp", "mul") or not self.isg(o[0]):
            return False
        if m == "mov":
            rg[self.gname(o[0])] = self.gv(o[1], rg)
            return True
        if m == "cmp":
            a, b = self.gv(o[0], rg), self.gv(o[1], rg)
            rg["flags"] = ("sub", a, b, self.sub(a, b))
            return True
        d = self.gname(o[0])
        a = self.gv(o[-2], rg)
        if len(o) == 3 or len(o) == 2:
            if m == "lsl":
                rg[d] = T.scale(a, 1 << int(o[-1][1:], 0), True)
                return True
            b = self.gv(o[-1], rg)
            if m == "mul":
                rg[d] = T.mul(a, b, True)
                return True
            r = self.add(a, b) if m.startswith("add") else self.sub(a, b)
            rg[d] = r
            if m == "subs":
                rg["flags"] = ("sub", a, b, r)
            elif m == "adds":
                rg["flags"] = None
            return True
        bad(I.text)

    def memop(self, o, post, rg):
        """address of [r] with optional post-increment; returns the pointer, updates the register with n bytes via callback"""
        al = re.search(r"\s*:(64|128|256)\s*(?=[\],])", o)
        if al:
            o = o[:al.start()] + o[al.end():]
        m = re.match(r"^\[\s*(.+?)\s*(?:,\s*#(-?\w+)\s*)?\](!?)$", o)
        if not m:
            bad("address " + o)
        r = self.gname(m.group(1))
        p = self.get(rg, r)
        if m.group(2):
            p = self.add(p, C(self.pb, int(m.group(2), 0)))
        # an alignment given in the instruction: packed operands start at an aligned address
        if al and not (isinstance(p, Ptr) and p.obj in self.K.names and all(k % (int(al.group(1)) // 8) == 0 for k in p.off.t.values())):
            bad("alignment of " + o)
        return r, p, m.group(3) == "!"

    def bump(self, r, p, n, bang, post, rg):
        if bang:
            rg[r] = self.add(p, C(self.pb, n))
        elif post is not None:
            rg[r] = self.add(p, self.gv(post, rg))


class A64(Arm):
    def vr(self, o):
        m = re.match(r"^v(\d+)\.(\d+)([bhsd])$", o)
        if not m:
            bad("register " + o)
        return "v" + m.group(1), int(m.group(2)), LW[m.group(3)]

    def vget(self, o, rg, half=None):
        """lanes of the arrangement; half 'hi': the upper part of a 128-bit register"""
        n, c, w = self.vr(o)
        v = rg.get(n)
        if v is None:
            v = V(32, [T.fresh("unset", 32) for _ in range(4)])
        l = v.lanes(w)
        return l[:c] if half is None else l[len(l) // 2:]

    def vset(self, o, rg, l, w):
        n, c, ww = self.vr(o)
        if c * ww == 64:
            l = l + [C(w, 0)] * (64 // w)
        rg[n] = V(w, l)

    def do(self, I, rg, st):
        m, o = I.m, I.ops
        if self.scalar(I, rg, st):
            return
        if m in ("ld1", "st1"):
            m2 = re.match(r"^\{\s*(.+?)\s*\}$", o[0])
            regs = [x.strip() for x in m2.group(1).split(",")]
            r, p, bang = self.memop(o[1], None, rg)
            tot = 0
            for x in regs:
                n, c, w = self.vr(x)
                nb = c * w // 8
                q = self.add(p, C(self.pb, tot))
                if m == "ld1":
                    v = self.load(st, q, nb)
                    self.vset(x, rg, v.l, v.w)
                else:
                    v = rg.get(n) or bad("store of an unset register")
                    self.store(st, q, v.low(c * w))
                tot += nb
            self.bump(r, p, tot, bang, o[2] if len(o) > 2 else None, rg)
        elif m == "dup" and o[1] in ("wzr", "xzr"):
            n, c, w = self.vr(o[0])
            self.vset(o[0], rg, [C(w, 0)] * c, w)
        elif m == "movi" and o[1] in ("#0", "#0x0"):
            n, c, w = self.vr(o[0])
            self.vset(o[0], rg, [C(w, 0)] * c, w)
        elif m == "mov" and o[0].startswith("v"):
            self.vset(o[0], rg, self.vget(o[1], rg), self.vr(o[0])[2])
        elif m in ("uxtl", "sxtl", "uxtl2", "sxtl2"):
            w = self.vr(o[0])[2]
            ex = zx if m[0] == "u" else sx
            self.vset(o[0], rg, [ex(x, w) for x in self.vget(o[1], rg, "hi" if m[-1] == "2" else None)], w)
        elif m in ("smull", "smull2", "umull", "umull2", "smlal", "smlal2", "umlal", "umlal2"):
            w = self.vr(o[0])[2]
            ex = zx if m[0] == "u" else sx
            hi = "hi" if m[-1] == "2" else None
            a = self.vget(o[1], rg, hi)
            e = re.match(r"^v(\d+)\.([bhs])\[(\d+)\]$", o[2])
            if e:
                b = [rg["v" + e.group(1)].lanes(LW[e.group(2)])[int(e.group(3))]] * len(a)
            else:
                b = self.vget(o[2], rg, hi)
            p = [T.mul(ex(x, w), ex(y, w)) for x, y in zip(a, b)]
            if "ml" in m and m[2:4] == "la":
                p = [T.add(x, y) for x, y in zip(self.vget(o[0], rg), p)]
            self.vset(o[0], rg, p, w)
        elif m in ("sadalp", "uadalp"):
            w = self.vr(o[0])[2]
            ex = zx if m[0] == "u" else sx
            l = [ex(x, w) for x in self.vget(o[1], rg)]
            self.vset(o[0], rg, [T.add(a, T.add(l[2 * i], l[2 * i + 1])) for i, a in enumerate(self.vget(o[0], rg))], w)
        elif m == ".word":
            x = int(o[0].split()[0], 0)
            if x & 0xbf00f400 != 0x2f00e000 or not x >> 23 & 1 or x >> 22 & 1 or not x >> 30 & 1:
                bad(I.text)
            ex = zx if x >> 29 & 1 else sx          # udot / sdot vd.4s, vn.16b, vm.4b[index]
            vd, vn, vm, ix = x & 31, x >> 5 & 31, x >> 16 & 31, (x >> 11 & 1) * 2 + (x >> 21 & 1)
            a = self.vget("v%d.16b" % vn, rg)
            b = self.vget("v%d.16b" % vm, rg)[4 * ix:4 * ix + 4]
            acc = self.vget("v%d.4s" % vd, rg)
            for i in range(4):
                for k in range(4):
                    acc[i] = T.add(acc[i], T.mul(ex(a[4 * i + k], 32), ex(b[k], 32)))
            self.vset("v%d.4s" % vd, rg, acc, 32)
        elif m == "addp":
            l = self.vget(o[1], rg) + self.vget(o[2], rg)
            self.vset(o[0], rg, [T.add(l[i], l[i + 1]) for i in range(0, len(l), 2)], self.vr(o[0])[2])
        elif m in ("add", "sub") and o[0].startswith("v"):
            f = T.add if m == "add" else T.sub
            self.vset(o[0], rg, [f(x, y) for x, y in zip(self.vget(o[1], rg), self.vget(o[2], rg))], self.vr(o[0])[2])
        else:
            bad(I.text)


# ------------------------------------------------------------------ ARM NEON (32-bit)
class A32(Arm):
    def declared(self, r):
        if r[0] == "d":
            n = int(r[1:])
            return bool({r, "q%d" % (n // 2)} & self.clob) or (n < 16 and {"s%d" % (2 * n), "s%d" % (2 * n + 1)} <= self.clob)
        return r in self.clob

    def ds(self, o):
        m = re.match(r"^([dq])(\d+)$", o)
        if not m:
            bad("register " + o)
        n = int(m.group(2))
        return ["d%d" % n] if m.group(1) == "d" else ["d%d" % (2 * n), "d%d" % (2 * n + 1)]

    def vget(self, o, w, rg):
        l = []
        for d in self.ds(o):
            v = rg.get(d)
            if v is None:
                v = V(32, [T.fresh("unset", 32) for _ in range(2)])
            l += v.lanes(w)
        return l

    def vset(self, o, rg, l, w):
        ds = self.ds(o)
        k = 64 // w
        if len(l) != k * len(ds):
            bad("width of " + o)
        for i, d in enumerate(ds):
            rg[d] = V(w, l[k * i:k * i + k])

    def do(self, I, rg, st):
        m, o = I.m, I.ops
        if self.scalar(I, rg, st):
            return
        b = m.split(".")[0]
        ty = m.split(".")[1] if "." in m else None
        w = int(re.sub(r"\D", "", ty)) if ty else None
        if b in ("vld4", "vst4"):
            ds = [d for x in re.match(r"^\{\s*(.+?)\s*\}$", o[0]).group(1).split(",") for d in self.ds(x.strip())]
            r, p, bang = self.memop(o[1], None, rg)
            k = 64 // w
            if len(ds) != 4 or w != 32:
                bad(I.text)
            if b == "vld4":
                l = [x for i in range(4) for x in self.load(st, self.add(p, C(self.pb, 8 * i)), 8).lanes(w)]
                for i, d in enumerate(ds):
                    rg[d] = V(w, [l[4 * j + i] for j in range(k)])
            else:
                v = [self.vget(d, w, rg) for d in ds]
                for j in range(k):
                    for i in (0, 2):
                        self.store(st, self.add(p, C(self.pb, 16 * j + 4 * i)), V(w, [v[i][j], v[i + 1][j]]))
            self.bump(r, p, 32, bang, o[2] if len(o) > 2 else None, rg)
        elif b == "vtrn":
            x, y = self.vget(o[0], w, rg), self.vget(o[1], w, rg)
            self.vset(o[0], rg, [x[i] if i % 2 == 0 else y[i - 1] for i in range(len(x))], w)
            self.vset(o[1], rg, [x[i + 1] if i % 2 == 0 else y[i] for i in range(len(x))], w)
        elif b == "vswp":
            for x, y in zip(self.ds(o[0]), self.ds(o[1])):
                u, v = rg.get(x), rg.get(y)
                if u is None or v is None:
                    bad("swap of an unset register")
                rg[x], rg[y] = v, u
        elif b == "vext":
            l = self.vget(o[1], w, rg) + self.vget(o[2], w, rg)
            i = int(o[3][1:], 0)
            self.vset(o[0], rg, l[i:i + len(l) // 2], w)
        elif b in ("vld1", "vst1"):
            regs = [x.strip() for x in re.match(r"^\{\s*(.+?)\s*\}$", o[0]).group(1).split(",")]
            ds = [d for x in regs for d in self.ds(x)]
            r, p, bang = self.memop(o[1], None, rg)
            for i, d in enumerate(ds):
                q = self.add(p, C(self.pb, 8 * i))
                if b == "vld1":
                    v = self.load(st, q, 8)
                    rg[d] = v
                else:
                    self.store(st, q, rg.get(d) or bad("store of an unset register"))
            self.bump(r, p, 8 * len(ds), bang, o[2] if len(o) > 2 else None, rg)
        elif b == "vldr":
            r, p, bang = self.memop(o[1], None, rg)
            rg[self.ds(o[0])[0]] = self.load(st, p, 8)
        elif b == "vmov" and len(o) == 2:
            if o[1].startswith("#"):
                if int(o[1][1:], 0):
                    bad(I.text)
                self.vset(o[0], rg, [C(32, 0)] * (2 * len(self.ds(o[0]))), 32)
            else:
                for d, s in zip(self.ds(o[0]), self.ds(o[1])):
                    rg[d] = rg.get(s) or bad("copy of an unset register")
        elif b == "vmovl":
            ex = zx if ty[0] == "u" else sx
            self.vset(o[0], rg, [ex(x, 2 * w) for x in self.vget(o[1], w, rg)], 2 * w)
        elif b in ("vmull", "vmlal"):
            ex = zx if ty[0] == "u" else sx
            a = self.vget(o[1], w, rg)
            e = re.match(r"^(d\d+)\[(\d+)\]$", o[2])
            y = [self.vget(e.group(1), w, rg)[int(e.group(2))]] * len(a) if e else self.vget(o[2], w, rg)
            p = [T.mul(ex(u, 2 * w), ex(v, 2 * w)) for u, v in zip(a, y)]
            if b == "vmlal":
                p = [T.add(u, v) for u, v in zip(self.vget(o[0], 2 * w, rg), p)]
            self.vset(o[0], rg, p, 2 * w)
        elif b == "vpadal":
            ex = zx if ty[0] == "u" else sx
            l = [ex(x, 2 * w) for x in self.vget(o[1], w, rg)]
            self.vset(o[0], rg, [T.add(a, T.add(l[2 * i], l[2 * i + 1])) for i, a in enumerate(self.vget(o[0], 2 * w, rg))], 2 * w)
        elif b == "vpadd":
            l = self.vget(o[-2], w, rg) + self.vget(o[-1], w, rg)
            self.vset(o[0], rg, [T.add(l[i], l[i + 1]) for i in range(0, len(l), 2)], w)
        elif b in ("vadd", "vsub"):
            f = T.add if b == "vadd" else T.sub
            self.vset(o[0], rg, [f(x, y) for x, y in zip(self.vget(o[-2], w, rg), self.vget(o[-1], w, rg))], w)
        else:
            bad(I.text)


ISA = {"x86_sse4": X86, "x86_avx2": X86, "aarch64": A64, "armhf": A32}


def run_asm(en, st, I, v, K):
    text, cons = v[0], v[1]
    args = [en.val(a, st) for a in I.a]
    M = ISA[K.config](en, K, text, cons, args)
    out = []
    done = M.run(st)
    w = {r for rg, s in done for r in rg if r[0] != "$" and r not in ("loops", "flags") and r[0] != "@"}
    miss = sorted(r for r in w if not M.declared(r))
    if "memory" not in M.clob:
        miss.append("memory")
    en.obls.append(Obligation("registers and memory the assembly changes are declared to the compiler", "", "refuted" if miss else "discharged",
                              solve.Result("sat" if miss else "unsat", {}, solver="syntactic"), detail=" ".join(miss)))
    for rg, s in done:
        s.ghost["kloops"] = s.ghost.get("kloops", ()) + rg["loops"]
        res = [rg.get("$%d" % i) for i in range(M.nout)]
        out.append((s, Agg(res) if M.nout > 1 else res[0] if res else None))
    return out
