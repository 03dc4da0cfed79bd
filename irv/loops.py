"""Unbounded loops: invariant inference and the cut rule (int mode).

For a loop with a symbolic exit the engine
 1. runs one iteration from an arbitrary loop-head state to find what changes: every phi, memory cell and ghost
    entry is classified as invariant, linear (init + k*delta), shifted (a function of k), or arbitrary;
 2. runs the generic iteration k (k >= 0, loop condition true at k-1) once, recording obligations, and proves that
    the classification is preserved (this is the induction step of the inferred invariant);
 3. for a tracked ghost quantity (how often the ghost target cell has been covered) defines k* by
    B*k* <= T - A < B*(k*+1), proves that every iteration k != k* leaves it unchanged, and obtains its value at the
    exit by executing the body for iteration k* (when 0 <= k* < K);
 4. leaves the loop from an arbitrary iteration K.
Nothing is unrolled, there is no bound on any trip count.
"""
from . import ir, term as T, solve
from .exec import Engine, Ptr, FnPtr, Vec, Agg, Undecided, Stop, SymbolicExit, Obligation
from .term import E, B


def vars_of(x):
    return solve._vars(x, {})


class Slot:
    __slots__ = ("kind", "key", "init", "sym", "cls", "delta", "ty", "kid")

    def __init__(self, kind, key, init, ty=None):
        self.kind, self.key, self.init, self.ty = kind, key, init, ty
        self.sym = self.cls = self.delta = None


class LoopEngine(Engine):
    def __init__(self, mod, **kw):
        kw.setdefault("timeout", 20)
        super().__init__(mod, "int", **kw)
        self.tracked = []
        self.cutall = False
        self.hints = []
        self.nloops = 0
        self.leav = {}
        self.slotcache = {}
        self.skim = 0
        self.events = 0
        self.accum = False          # recognise accumulators: cells that grow by f(k) in iteration k
        self.havocked = set()       # loop state abstracted to arbitrary values: refutations mentioning it are not definite

    # ------------------------------------------------------------ obligations
    def prove(self, st, goal, name, where=""):
        if self.quiet:
            return True
        ok = super().prove(st, goal, name, where)
        if not ok and self.havocked and self.obls[-1].res is not None:
            vs = set(vars_of(goal))
            for b in st.pc:
                vs |= vars_of(b)
            if vs & self.havocked:
                self.obls[-1].res.approx = True
        return ok

    def exec_loop(self, f, L, prev, st):
        key = (f.name, L.header)
        if key not in self.cutloops and (self.cutall or self.symbolic_test(f, L, prev, st)):
            self.cutloops[key] = True
        if key not in self.cutloops:
            saved = st.fork()
            no, nh = len(self.obls), len(self.hints)
            try:
                return self.unroll_loop(f, L, prev, st)
            except SymbolicExit as e:
                if e.loop is not L:
                    raise
                del self.obls[no:]
                del self.hints[nh:]
                self.cutloops[key] = True
                st = saved
        return self.cut_loop(f, L, prev, st)

    def allow_sym_exit(self, f, L, st):
        return (f.name, L.header) in self.cutloops

    def symbolic_test(self, f, L, prev, st):
        """the loop test at the header is not a constant on entry"""
        ins = f.blocks[L.header].ins
        if ins[-1].op != "br" or not ins[-1].a:
            return False
        if all(b in L.blocks for b in ins[-1].x["succ"]):
            return False
        s = st.fork()
        try:
            self.do_phis(f, L.header, prev, s)
            for i in ins[:-1]:
                if i.op == "phi":
                    continue
                if i.op in ("call", "invoke", "store", "alloca"):
                    return False
                self.simple(i, s, f)
            return self.val(ins[-1].a[0], s).op not in ("T", "F")
        except (Undecided, ir.IRUnsupported, KeyError):
            return False

    # ------------------------------------------------------------ slots
    def off_of(self, v):
        return v.off if isinstance(v, Ptr) else v

    def fresh_like(self, v, ty, nm):
        if isinstance(v, E):
            return T.fresh(nm, v.w)
        if isinstance(v, B):
            return T.bvar(T.fresh_name(nm))
        if isinstance(v, Ptr):
            if v.obj in ("undef",):
                return v
            return Ptr(v.obj, T.fresh(nm, self.pb))
        if isinstance(v, (Vec, Agg)):
            return type(v)(self.fresh_like(x, None, nm) for x in v)
        if isinstance(v, (tuple, str)) or v is None:
            return ("havoc", T.fresh_name(nm))
        if isinstance(v, FnPtr):
            raise Undecided("function pointer changes in a loop")
        raise Undecided("loop slot %s of kind %r" % (nm, v))

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Ptr):
            return a.obj == b.obj and a.off == b.off
        if isinstance(a, FnPtr):
            return a.name == b.name
        if isinstance(a, (Vec, Agg, tuple, list)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b

    def get_slot(self, st, s, f, prev):
        if s.kind == "phi":
            for v, b in s.key.x["inc"]:
                if b == prev:
                    return self.val(v, st)
            raise ir.IRUnsupported("phi edge")
        if s.kind == "mem":
            o, off, n = s.key
            r = st.mem.get(o, {}).get(off)
            return r[0] if r is not None and r[1] == n else None
        return st.ghost.get(s.key)

    def set_slot(self, st, s, v):
        if s.kind == "phi":
            st.env[s.key.res] = v
        elif s.kind == "mem":
            o, off, n = s.key
            m = st.wmem(o)
            if v is None:
                m.pop(off, None)
            else:
                m[off] = (v, n)
        else:
            if v is None:
                st.ghost.pop(s.key, None)
            else:
                st.ghost[s.key] = v

    def head(self, f, L, st):
        n = 0
        for i in f.blocks[L.header].ins:
            if i.op != "phi":
                break
            n += 1
        return [(L.header, n, None, st)]

    def default_sym(self, ob, off, n):
        return ob.sym and ob.elem == n and off % n == 0 and \
            T.var("%s[%d]" % (ob.name.split("#")[0], off // n), n * 8)

    def leaving(self, f, L):
        """blocks of L from which the loop can be left without another iteration (dead ends such as failed assertions
        excepted: those are checked in the generic iteration)"""
        key = (f.name, L.header)
        r = self.leav.get(key)
        if r is None:
            succ = {}
            for b in L.blocks:
                t = f.blocks[b].ins[-1]
                succ[b] = list(t.x["succ"]) if "succ" in t.x else None
            r = set()
            for b, ss in succ.items():
                if ss is None or any(x not in L.blocks and not self.dead_end(f, x) for x in ss):
                    r.add(b)
            ch = True
            while ch:
                ch = False
                for b, ss in succ.items():
                    if b not in r and any(x in r and x != L.header for x in ss):
                        r.add(b)
                        ch = True
            r.add(L.header)
            self.leav[key] = r
        return r

    def skimmed(self, f, L, st):
        self.skim += 1
        try:
            return self.body(f, L, st, True)
        finally:
            self.skim -= 1

    def leave(self, f, L, st):
        """exits of one iteration"""
        self.quiet += 1
        nh = len(self.hints)
        try:
            b, e, r = self.region(f, L, self.head(f, L, st), only=self.leaving(f, L))
            return [x for x in e if x[0] in L.blocks or not self.dead_end(f, x[0])], r
        finally:
            self.quiet -= 1
            del self.hints[nh:]

    def dead_ends(self, f, ex):
        """failed assertions reached in the generic iteration"""
        for b, p, s in ex:
            if self.dead_end(f, b):
                try:
                    self.do_phis(f, b, p, s)
                    self.exec_block(f, b, 0, p, s, None)
                except Stop:
                    pass

    def body(self, f, L, st, quiet):
        if quiet:
            self.quiet += 1
            nh = len(self.hints)
            try:
                return self.region(f, L, self.head(f, L, st))
            finally:
                self.quiet -= 1
                del self.hints[nh:]
        return self.region(f, L, self.head(f, L, st))

    # ------------------------------------------------------------ the cut
    def cut_loop(self, f, L, prev, st, peeled=False):
        self.nloops += 1
        where = "%s:%s" % (f.name[:60], L.header)
        pre = set()
        for b in st.pc:
            pre |= vars_of(b)
        prebound = len(T._by_id)          # variables created from here on are local to the loop
        slots = []
        st = st.fork()
        for i in f.blocks[L.header].ins:
            if i.op != "phi":
                break
            s = Slot("phi", i, None, i.ty)
            s.init = self.get_slot(st, s, f, prev)
            slots.append(s)
        have = set()
        ck = (f.name, L.header)
        for kind, key in self.slotcache.get(ck, ()):
            if kind == "mem":
                o, off, n = key
                r = st.mem.get(o, {}).get(off)
                if r is None or r[1] != n:
                    continue
                have.add(("mem", o, off))
                slots.append(Slot("mem", key, r[0]))
            elif key in st.ghost:
                have.add(("ghost", key))
                slots.append(Slot("ghost", key, st.ghost[key]))
        for rnd in range(8):
            s0 = st.fork()
            for s in slots:
                if s.kind == "mem" and s.init is None:
                    s.sym = None
                elif s.kind == "ghost" and s.key in self.tracked:
                    s.sym = self.fresh_like(s.init, None, "g")
                else:
                    s.sym = self.fresh_like(s.init, s.ty, "h" if s.kind != "ghost" else "h_%s" % (s.key,))
                self.set_slot(s0, s, s.sym)
            start_mem = dict(s0.mem)
            start_gh = dict(s0.ghost)
            npc = len(s0.pc)
            backs, ex, rt = self.skimmed(f, L, s0.fork())
            new = []
            regroup = set()
            for _, pb, b in backs:
                for o, m in b.mem.items():
                    m0 = start_mem.get(o)
                    if m0 is None or m is m0:
                        continue
                    for off in set(m) | set(m0):
                        r, r0 = m.get(off), m0.get(off)
                        if r is not None and r0 is not None and r[1] == r0[1] and self.same(r[0], r0[0]):
                            continue
                        if ("mem", o, off) in have:
                            continue
                        if self.accum and r is not None and r0 is not None and r[1] != r0[1]:
                            # cells initialised with another granularity: regroup them before the loop
                            regroup |= {(o, off + i, r[1]) for i in range(0, max(r0[1], r[1]), r[1])}
                            continue
                        have.add(("mem", o, off))
                        if r0 is None:
                            ob = self.objs[o]
                            if ob.sym:
                                d = self.default_sym(ob, off, r[1])
                                if d is not False and self.same(r[0], d):
                                    continue
                                raise Undecided("loop writes a symbolic input cell")
                            new.append(Slot("mem", (o, off, r[1]), None))
                        else:
                            new.append(Slot("mem", (o, off, r0[1]), r0[0]))
                            if r is None or r[1] != r0[1]:
                                new[-1].cls = "kill"
                for k, v in b.ghost.items():
                    if isinstance(k, tuple) and k and k[0] == "symu":
                        continue
                    if ("ghost", k) in have or self.same(v, start_gh.get(k)):
                        continue
                    have.add(("ghost", k))
                    new.append(Slot("ghost", k, start_gh.get(k)))
            if regroup:
                have -= {("mem", o, off + i) for o, off, n in regroup for i in range(n)}
                vs = [(o, off, n, self.load_scalar(st, Ptr(o, T.C(self.pb, off)), ir.ity(8 * n))) for o, off, n in regroup]
                for o, off, n, v in vs:
                    m = st.wmem(o)
                    for i in range(n):
                        m.pop(off + i, None)
                for o, off, n, v in vs:
                    st.wmem(o)[off] = (v, n)
                continue
            if not new:
                break
            slots += new
        else:
            raise Undecided("loop modification set does not stabilise in " + where)
        self.slotcache[ck] = [(s.kind, s.key) for s in slots if s.kind != "phi" and s.init is not None and s.cls != "kill"]
        # ---- classification
        mp = {}
        vals = {}
        for s in slots:
            vals[s] = [self.get_slot(b, s, f, pb) for _, pb, b in backs]
            if s.cls == "kill" or s.init is None:
                s.cls = "kill"
            elif s.kind == "ghost" and s.key in self.tracked:
                s.cls = "tracked"
            elif all(self.same(v, s.sym) for v in vals[s]):
                s.cls = "inv"
                self.bind(mp, s.sym, s.init)
        kv = T.fresh("k", 32, 0, (1 << 31) - 1)
        kid = kv.single.id
        ok_atoms = lambda vs: all((isinstance(i, tuple) or i < prebound or i == kid) for i in vs)
        ch = True
        while ch:
            ch = False
            for s in slots:
                if s.cls is not None or not isinstance(s.sym, (E, Ptr)):
                    continue
                if not all(type(v) is type(s.sym) and (not isinstance(v, Ptr) or v.obj == s.sym.obj) for v in vals[s]):
                    continue
                nv = [T.subst(self.off_of(v), mp) for v in vals[s]]
                sy = self.off_of(s.sym)
                ds = [T.sub(v, sy, v.exact or v.w >= 64) for v in nv]
                if all(d == ds[0] for d in ds) and ok_atoms(vars_of(ds[0])) and kid not in vars_of(ds[0]) and ds[0].exact:
                    s.cls, s.delta = "lin", ds[0]
                    mp[sy.single.id] = self.at(s, kv, off=True)
                    ch = True
                    continue
                if self.accum and s.kind == "mem" and isinstance(s.init, E) and all(d == ds[0] for d in ds) and ok_atoms(vars_of(ds[0])):
                    s.cls, s.delta, s.kid = "acc", ds[0], kid
                    ch = True
                    continue
                if all(v == nv[0] for v in nv) and ok_atoms(vars_of(nv[0])):
                    s.cls, s.delta, s.kid = "shift", nv[0], kid
                    mp[sy.single.id] = self.at(s, kv, off=True)
                    ch = True
        eqs = {}
        for s in slots:
            if s.cls is None:
                s.cls = "havoc"
                # quantities that are equal on entry and after every iteration stay equal
                for r in slots:
                    if r is s:
                        break
                    if r.cls == "havoc" and r not in eqs and isinstance(s.init, E) and isinstance(r.init, E) and self.same(s.init, r.init) and \
                            all(isinstance(x, E) and self.same(x, y) for x, y in zip(vals[s], vals[r])):
                        eqs[s] = r
                        break
        # ---- loop condition at the previous iteration (holds for every k >= 1)
        cont = None
        for _, pb, b in backs:
            lits = {}
            for x in b.pc[npc:]:
                y = T.subst(x, mp)
                if ok_atoms(vars_of(y)):
                    lits[y.key] = y
            cont = lits if cont is None else {k: v for k, v in cont.items() if k in lits}
        if cont is None:
            cfact = lambda k: T.cmp("sle", k, T.C(32, 0))
        else:
            cl = list(cont.values())

            def cfact(k):
                if not cl:
                    return T.TRUE
                m2 = {kid: T.sub(k, T.C(32, 1), True)}
                return T.band(T.bor(T.cmp("sle", k, T.C(32, 0)), T.band(*[T.subst(x, m2) for x in cl])), *[nf(k) for nf in nes])
            nes = [nf for nf in (self.nefact(y, kv) for y in cl) if nf]

        def inst(k, g):
            s1 = st.fork()
            accs, hvs = {}, {}
            for s in slots:
                if s.cls == "acc":
                    s.sym = T.fresh("acc", s.init.w)
                    accs[s.sym.single.id] = (s.init, T.subst(s.delta, {kid: k}))
                    self.set_slot(s1, s, s.sym)
                elif s.cls == "kill":
                    self.set_slot(s1, s, ("havoc", "kill") if s.kind == "ghost" and isinstance(s.key, tuple) else None)
                elif s.cls == "tracked":
                    self.set_slot(s1, s, g[s.key])
                elif s.cls == "havoc":
                    hv = hvs[eqs[s]] if s in eqs else self.fresh_like(s.init, s.ty, "h")
                    hvs[s] = hv
                    self.note_havoc(hv)
                    self.set_slot(s1, s, hv)
                else:
                    self.set_slot(s1, s, self.at(s, k))
            if k.const is None:
                s1.assume(T.cmp("sge", k, T.C(32, 0)))
                s1.assume(cfact(k))
            if accs:
                s1.ghost["kloops"] = s1.ghost.get("kloops", ()) + ((self.nloops, k, None, accs),)
            return s1
        if self.skim:
            # an inner loop while looking for what an outer loop changes: its exits, with any tracked value
            K = T.fresh("K", 32, 0, (1 << 31) - 1)
            s3 = inst(K, {s.key: T.fresh("g", 32) for s in slots if s.cls == "tracked"})
            return self.leave(f, L, s3)
        # ---- generic iteration
        trk = [s for s in slots if s.cls == "tracked"]
        g0 = {s.key: s.init for s in trk}
        gs = {s.key: s.sym for s in trk}
        nh, no = len(self.hints), len(self.obls)
        s1 = inst(kv, gs)
        s1m, s1g = dict(s1.mem), dict(s1.ghost)
        try:
            backs, gex, _ = self.region(f, L, self.head(f, L, s1))
        except Undecided:
            if peeled:
                raise
            del self.obls[no:]
            del self.hints[nh:]
            return self.peel(f, L, prev, st)
        if not self.quiet:
            self.dead_ends(f, gex)
        k1 = T.add(kv, T.C(32, 1), True)
        self.frame(s1m, s1g, backs, slots, where)
        for _, pb, b in backs:
            for s in slots:
                if s.cls == "acc" and self.get_slot(b, s, f, pb) != T.add(s.sym, s.delta):
                    raise Undecided("accumulator not recognised in %s" % where)
                if s in eqs and not self.same(self.get_slot(b, s, f, pb), self.get_slot(b, eqs[s], f, pb)):
                    raise Undecided("inferred equality not preserved in %s" % where)
                if s.cls in ("inv", "lin", "shift"):
                    v, w = self.get_slot(b, s, f, pb), self.at(s, k1)
                    if self.same(v, w):
                        continue
                    if isinstance(v, E) and isinstance(w, E) and self.valid(b, T.cmp("eq", v, w)):
                        continue
                    if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj == w.obj and \
                            self.valid(b, T.cmp("eq", v.off, w.off)):
                        continue
                    raise Undecided("inferred loop invariant not preserved in %s" % where)
        frontier = None
        changed = [s for s in trk if any(not self.same(self.get_slot(b, s, f, pb), gs[s.key]) for _, pb, b in backs)]
        variants = [(None, [], dict(g0))]
        if changed:
            def unchanged(b, pb):
                return T.band(*[T.cmp("eq", self.get_slot(b, s, f, pb), gs[s.key]) for s in changed])
            cands = self.candidates(nh, kid, kv, prebound, st)
            ks = None
            chosen = None
            for A, Bc, Tg in cands:
                kst = T.fresh("kst", 32)
                wr = lambda e: T.sext(e, 64) if e.w < 64 else e
                bk = T.mul(Bc, kst if Bc.w == 32 else T.sext(kst, Bc.w), True)
                d = T.sub(Tg, A, True)
                facts = [T.cmp("sle", bk, d), T.cmp("slt", d, T.add(bk, Bc, True))]
                good = True
                for _, pb, b in backs:
                    b2 = b.fork()
                    for x in facts:
                        b2.assume(x)
                    b2.assume(T.bnot(T.cmp("eq", kv, kst)))
                    if not self.valid(b2, unchanged(b, pb)):
                        good = False
                        break
                if good:
                    chosen = (kst, facts)
                    break
            if chosen is None:
                # maybe no iteration touches it at all
                if all(self.valid(b, unchanged(b, pb)) for _, pb, b in backs):
                    chosen = ()
            frontier = None
            if chosen is None and len(changed) == 1 and self.additive(changed[0], backs, gs, f):
                frontier = self.frontier(nh, kid, kv, prebound, changed[0], gs, g0, backs, f)
                if frontier:
                    chosen = ()
                    if not self.quiet:
                        self.obls.append(Obligation("consecutive ranges: covered exactly up to the running start", where,
                                                    "discharged", solve.Result("unsat")))
            if chosen is None and not peeled:
                del self.obls[no:]
                del self.hints[nh:]
                return self.peel(f, L, prev, st)
            if chosen is None:
                if not self.quiet:
                    for _, pb, b in backs:
                        self.prove(b, unchanged(b, pb), "each target cell is covered by one iteration only", where)
                    raise Undecided("target coverage not attributable to one iteration of %s" % where)
                raise Undecided("target coverage not attributable to one iteration of %s" % where)
            if not self.quiet:
                self.obls.append(Obligation("iterations other than k* leave the target unchanged", where, "discharged",
                                            solve.Result("unsat")))
            if chosen:
                kst, facts = chosen
                s2 = inst(kst, g0)
                for x in facts:
                    s2.assume(x)
                variants = []
                n2 = len(s2.pc)
                kb = []
                if self.feas(s2):
                    kb, _, _ = self.body(f, L, s2, True)
                base = len(st.pc)
                for _, pb, b in kb:
                    variants.append((kst, b.pc[base:], {s.key: self.get_slot(b, s, f, pb) for s in trk}))
                variants.append((kst, None, dict(g0)))
        # ---- exits, from an arbitrary iteration K
        outE, outR = [], []
        for kst, facts2, g in variants:
            K = T.fresh("K", 32, 0, (1 << 31) - 1)
            if frontier:
                g = dict(g)
                g[changed[0].key] = frontier[0](K)
            s3 = inst(K, g)
            if frontier:
                s3.assume(frontier[1](K))
            if kst is not None:
                if facts2 is None:
                    for x in chosen[1]:
                        s3.assume(x)
                    s3.assume(T.bor(T.cmp("slt", kst, T.C(32, 0)), T.cmp("sge", kst, K)))
                else:
                    for x in facts2:
                        s3.assume(x)
                    s3.assume(T.cmp("slt", kst, K))
                if not self.feas(s3):
                    continue
            ex, rt = self.leave(f, L, s3)
            outE += ex
            outR += rt
        return outE, outR

    def nefact(self, y, kv):
        """the loop goes on while a + b*k != 0 with b dividing a <= 0: then a + b*k <= 0 for every iteration reached"""
        if y.op != "not" or y.args[0].op != "cmp" or y.args[0].args[0] != "eq":
            return None
        _, l, r = y.args[0].args
        if not (l.exact and r.exact):
            return None
        d = T.sub(l, r, True)
        (mk, c1), = T.sext(kv, d.w).t.items()
        b = d.t.get(mk, 0)
        if not b or c1 != 1:
            return None
        if b < 0:
            d, b = T.sub(T.C(d.w, 0), d, True), -b
        a = T.E(d.w, {m: c for m, c in d.t.items() if m != mk}, True)
        if kv.single.id in vars_of(a) or any(c % b for c in a.t.values()):
            return None
        z = T.C(d.w, 0)
        return lambda k: T.bor(T.cmp("slt", z, a), T.cmp("sle", T.add(a, T.scale(T.sext(k, d.w), b, True), True), z))

    def frame(self, m0, g0, backs, slots, where):
        """the generic iteration changes nothing the inferred invariant does not speak about"""
        have = {("mem",) + s.key[:2] for s in slots if s.kind == "mem"} | {("ghost", s.key) for s in slots if s.kind == "ghost"}
        for _, pb, b in backs:
            for o, m in b.mem.items():
                a = m0.get(o)
                if a is None or m is a:
                    continue
                for off in set(m) | set(a):
                    r, r0 = m.get(off), a.get(off)
                    if ("mem", o, off) in have or (r is not None and r0 is not None and r[1] == r0[1] and self.same(r[0], r0[0])):
                        continue
                    if r is not None and r0 is None and self.objs[o].sym:
                        d = self.default_sym(self.objs[o], off, r[1])
                        if d is not False and self.same(r[0], d):
                            continue
                    raise Undecided("cell %s+%s changes in the generic iteration only in %s" % (o, off, where))
            for k, v in b.ghost.items():
                if ("ghost", k) in have or (isinstance(k, tuple) and k and k[0] == "symu") or self.same(v, g0.get(k)):
                    continue
                raise Undecided("ghost %r changes in the generic iteration only in %s" % (k, where))

    def note_havoc(self, v):
        if isinstance(v, Ptr):
            v = v.off
        if isinstance(v, (E, B)):
            self.havocked |= set(vars_of(v))
        elif isinstance(v, (Vec, Agg)):
            for x in v:
                self.note_havoc(x)

    def bind(self, mp, sym, val):
        if isinstance(sym, E):
            mp[sym.single.id] = val
        elif isinstance(sym, Ptr) and isinstance(val, Ptr) and sym.off.single is not None:
            mp[sym.off.single.id] = val.off
        elif isinstance(sym, (Vec, Agg)):
            for a, b in zip(sym, val):
                self.bind(mp, a, b)

    def at(self, s, k, off=False):
        if s.cls == "inv":
            return s.init
        i = self.off_of(s.init)
        w = i.w
        kk = k if w == 32 else (T.sext(k, w) if w > 32 else T.trunc(k, w))
        if s.cls == "lin":
            v = T.add(i, T.mul(kk, s.delta, True), True)
        else:
            v = T.subst(s.delta, {s.kid: T.sub(k, T.C(32, 1), True)})
            c = T.cmp("sle", k, T.C(32, 0))
            v = T.ite(c, i, v)
        if off:
            return v
        return Ptr(s.init.obj, v) if isinstance(s.init, Ptr) else v

    def candidates(self, nh, kid, kv, prebound, st):
        out, seen = [], set()
        for lo, tg in [(d[0], d[2]) for ev in self.hints[nh:] for d in ev]:
            Bt, At, ok = {}, {}, True
            for m, c in lo.t.items():
                n = m.count(kid)
                if n == 0:
                    lv = set()
                    for i in m:
                        lv |= solve._avars(i, {})
                    if kid in lv:
                        ok = False
                    elif all(isinstance(i, tuple) or i < prebound for i in lv):
                        At[m] = c
                    # contributions of inner iterations start at 0
                elif n == 1:
                    mm = list(m)
                    mm.remove(kid)
                    if any(i >= prebound for i in mm):
                        ok = False
                    Bt[tuple(mm)] = c
                else:
                    ok = False
            if not ok or not Bt:
                continue
            A, Bc = E(lo.w, At, True), E(lo.w, Bt, True)
            key = (A.key, Bc.key, tg.key)
            if key in seen:
                continue
            seen.add(key)
            if not self.valid(st, T.cmp("sge", Bc, T.C(Bc.w, 1))):
                continue
            out.append((A, Bc, tg))
        return out

    def additive(self, s, backs, gs, f):
        return True

    def frontier(self, nh, kid, kv, prebound, s, gs, g0, backs, f):
        """the event ranges of successive iterations are consecutive: lo(k+1) is the end of iteration k's range"""
        for ev in self.hints[nh:]:
            for j, (lo, hi, tg) in enumerate(ev):
                lv = vars_of(lo)
                if kid not in lv or any(not isinstance(i, tuple) and i >= prebound and i != kid for i in lv):
                    continue
                rest = []
                for i, (l2, h2, t2) in enumerate(ev):
                    if i != j:
                        v2 = vars_of(l2) | vars_of(h2)
                        if any(not isinstance(x, tuple) and x >= prebound for x in v2):
                            rest = None
                            break
                        rest += [T.cmp("sle", l2, t2), T.cmp("slt", t2, h2)]
                if rest is None:
                    continue
                lo0 = T.subst(lo, {kid: T.C(32, 0)})
                F = lambda k: T.subst(lo, {kid: k})
                G = lambda k: T.add(g0[s.key], T.ite(T.band(T.cmp("sle", lo0, tg), T.cmp("slt", tg, F(k)), *rest),
                                                     T.C(32, 1), T.C(32, 0)), True)
                H = lambda k: T.cmp("sle", lo0, F(k))
                k1 = T.add(kv, T.C(32, 1), True)
                sub = {gs[s.key].single.id: G(kv)}
                ok = True
                for _, pb, b in backs:
                    b2 = b.fork()
                    b2.assume(H(kv))
                    g1 = T.subst(self.get_slot(b, s, f, pb), sub)
                    if not self.valid(b2, T.cmp("sle", F(kv), F(k1))) or \
                            not self.valid(b2, T.cmp("eq", g1, G(k1))):
                        ok = False
                        break
                if ok:
                    return G, H
        return None

    def peel(self, f, L, prev, st):
        """execute the first iteration on its own, cut from the second"""
        s = st.fork()
        self.do_phis(f, L.header, prev, s)
        backs, ex, rt = self.region(f, L, self.head(f, L, s))
        outE, outR = list(ex), list(rt)
        for _, pb, b in backs:
            e, r = self.cut_loop(f, L, pb, b, peeled=True)
            outE += e
            outR += r
        return outE, outR
