"""Worker pool, thread-modular (int mode).  Each thread's code is run against what the other side may do (rely), and what it does is checked
against what the other side relies on (guarantee):
  pool side   moves a worker from Ready to HasWork (handing over one task) or to Exit, never touches it otherwise
  worker side moves it from ThreadStartup or HasWork to Ready, running the task handed over once, and decrements the counter once afterwards
The effect of a hand-over on the worker's fields is not assumed: it is what the real StartWork was found to write."""
import re
from . import build, term as T, solve
from .exec import Ptr, FnPtr, State, Stop, Undecided
from .loops import LoopEngine

KEEP = (r"8gemmlowp6Worker9StartWork", r"8gemmlowp6Worker11ChangeState", r"8gemmlowp6Worker[CD][0-9]", r"6vectorIPN8gemmlowp6Worker.*(9push_back|12emplace_back)")
I32 = lambda v: T.C(32, v)


def shadow(en, st, name):
    if name + "~" not in en.objs:
        from .exec import Obj
        en.objs[name + "~"] = Obj(name + "~")
    st.mem.setdefault(name + "~", {})
    return name + "~"


def divc(e, k):
    """e = k * q + r, r constant"""
    q, r = {}, 0
    for m, c in e.t.items():
        if m == ():
            q[m], r = c // k, c % k
        elif c % k:
            raise Undecided("address not a multiple of the element size")
        else:
            q[m] = c // k
    return T.E(e.w, q, True), r


def order(I):
    return {"acq_rel", "release", "acquire", "seq_cst", "monotonic"} & set(re.findall(r"\b(acq_rel|release|acquire|seq_cst|monotonic)\b", I.text))


class Mem:
    """an object whose atomic accesses mean something; the rest is plain memory"""

    def __init__(self, w, atom):
        self.w, self.atom = w, atom

    def isatom(self, en):
        I = en.curI
        return I is not None and (I.op == "atomicrmw" or I.x.get("atomic"))

    def load(self, en, st, ob, p, n, ty):
        if self.isatom(en):
            return self.atom("load", en, st, p, None, n)
        if p.off.const is not None and st.ghost.get(("at", p.obj)) == p.off.const:
            raise Undecided("plain access to an atomic")
        w = self.w
        if p.obj == "W" and w.side == "worker" and p.off.const in w.diff and not st.ghost["own"]:
            # written by the hand-over, if there was one
            c = T.cmp("eq", w.cur(st), I32(w.W))
            if st.ghost["lock"] is None:
                raise Undecided("a worker's field is read without its lock")
            if en.valid(st, c):
                return w.diff[p.off.const][0]
            if not en.valid(st, T.bnot(c)):
                raise Undecided("a worker's field is read in an unknown state")
        return en.load_scalar(st, Ptr(shadow(en, st, p.obj), p.off), ty)

    def store(self, en, st, ob, p, v, n):
        if self.isatom(en):
            return self.atom("store", en, st, p, v, n)
        from .ir import Ty
        ty = Ty("ptr") if isinstance(v, (Ptr, FnPtr)) else Ty("int", n=8 * n)
        o = p.off.const
        if self.w.side == "worker" and p.obj == "W" and st.ghost["lock"] is None:
            en.prove(st, T.FALSE, "the worker's fields are written under its lock", "%s offset %r" % (self.w.name, o))
        if self.w.side == "worker" and p.obj == "W" and o in self.w.diff:
            st.ghost["own"] = True
        return en.store_scalar(st, Ptr(shadow(en, st, p.obj), p.off), v, ty)

    def rmw(self, en, st, p, k, v, ty):
        return self.atom("rmw:" + k, en, st, p, v, en.L.size(ty))


class Tasks:
    """array of task objects of size w.ts"""

    def __init__(self, w):
        self.w = w

    def load(self, en, st, ob, p, n, ty):
        q, r = divc(p.off, self.w.ts)
        if r == 0:
            return self.w.vptr
        for off, v in reversed(st.ghost.get("la", ())):
            if en.valid(st, T.cmp("eq", off, p.off)):
                return v
        if r == en.pb // 8 and n == en.pb // 8:
            # a task used before: the allocator it was given then
            if not getattr(self.w, "oldal", None):
                self.w.oldal = en.new_obj(st, "OLDAL", size=1 << 12)
            return self.w.oldal
        raise Undecided("task field read before it is written")

    def store(self, en, st, ob, p, v, n):
        q, r = divc(p.off, self.w.ts)
        if r == 0:
            return          # vptr, in destructors
        st.ghost["la"] = (st.ghost.get("la", ()) + ((p.off, v),))[-2:]


class Vec8:
    """a vector's elements: pointer number i is object base[i]"""

    def __init__(self, w, base, size, count):
        self.w, self.base, self.size, self.count = w, base, size, count

    def load(self, en, st, ob, p, n, ty):
        try:
            q, r = divc(p.off, en.pb // 8)
        except Undecided:
            if not en.skim:
                raise
            q, r = T.fresh("q", en.pb, 0, 1 << 16), 0
        if r:
            raise Undecided("misaligned element")
        c = self.count(st)
        en.prove(st, T.band(T.cmp("sge", q, T.C(q.w, 0)), T.cmp("slt", q, c)), "vector index in range", "%s %r" % (self.w.name, q))
        return Ptr(self.base, T.scale(q, self.size, True))

    def store(self, en, st, ob, p, v, n):
        raise Undecided("vector elements are written")


class Pool:
    def __init__(self, config, worker):
        self.side = "worker" if worker else "pool"
        self.mod = build.module("pool.cc", config, keep=() if worker else KEEP)
        h = {"g_run": self.h_run, "g_gone": self.h_gone, "pthread_mutex_lock": self.h_lock, "pthread_mutex_unlock": self.h_unlock,
             "pthread_cond_wait": self.h_wait, "pthread_cond_broadcast": self.h_sig, "pthread_cond_signal": self.h_sig,
             "pthread_mutex_init": self.h_init("mutex"), "pthread_cond_init": self.h_init("cond"), "pthread_mutex_destroy": self.h_fini("mutex"),
             "pthread_cond_destroy": self.h_fini("cond"), "pthread_create": self.h_create, "pthread_join": self.h_join, "nanosleep": self.h_sleep,
             "*sleep_for": self.h_sleep, "free": self.h_free, "_ZdlPv*": self.h_del, "_ZdlPv": self.h_del, "_Znw*": self.h_new, "abort": self.h_abort,
             "__errno_location": self.h_errno, "*7yield": self.h_sleep, "sched_yield": self.h_sleep}
        if not worker:
            h.update({"*8gemmlowp6Worker9StartWork": self.h_start, "*8gemmlowp6Worker11ChangeState": self.h_change, "*8gemmlowp6WorkerC": self.h_ctor,
                      "*8gemmlowp6WorkerD": self.h_dtor, "*6vectorIPN8gemmlowp6WorkerESaIS2_EE9push_back": self.h_push, "*6vectorIPN8gemmlowp6WorkerESaIS2_EE12emplace_back": self.h_push})
        self.en = en = LoopEngine(self.mod, hooks=h)
        en.tracked = ["tgt", "wtg", "gone"]
        en.cutall = True
        k = lambda n: en.run("@k_" + n, [], State())[0][1].const
        self.R, self.W, self.X, self.S = k("ready"), k("work"), k("exit"), k("startup")
        self.ws, self.ps, self.ts, self.cs = k("worker"), k("pool"), k("task"), k("counter")
        self.vptr = Ptr("g:@_ZTV2VT", T.C(en.pb, 2 * en.pb // 8))
        self.diff = {}
        self.name = "?"

    # ------------------------------------------------------------------ shared
    def req(self, st, b, name, extra=""):
        self.en.prove(st, b, name, "%s %s" % (self.name, extra))
        st.assume(b)

    def h_sleep(self, en, st, a, I):
        return [(st, I32(0))]

    def h_errno(self, en, st, a, I):
        return [(st, en.new_obj(st, "errno", size=4))]

    def h_abort(self, en, st, a, I):
        if self.side == "worker":
            self.cur(st)
        self.req(st, T.FALSE, "abort is not reached")
        raise Stop()

    def h_free(self, en, st, a, I):
        return [(st, None)]

    def h_del(self, en, st, a, I):
        if isinstance(a[0], Ptr) and a[0].obj == "WN":
            pass
        return [(st, None)]

    def h_new(self, en, st, a, I):
        return [(st, en.new_obj(st, "new", size=a[0].const, meta={"align": 16}))]

    # ------------------------------------------------------------------ worker side and hand-over
    def sync(self, st, b, kind, p):
        return isinstance(p, Ptr) and p.obj == "W" and st.ghost.get("sync", {}).get(kind) == p.off.const

    def h_init(self, kind):
        def h(en, st, a, I):
            d = dict(st.ghost.get("sync", {}))
            d[kind] = a[0].off.const
            st.ghost["sync"] = d
            return [(st, I32(0))]
        return h

    def h_fini(self, kind):
        def h(en, st, a, I):
            self.req(st, T.bconst(bool(st.ghost.get("joined"))), "the thread is joined before its lock is destroyed")
            return [(st, I32(0))]
        return h

    def h_create(self, en, st, a, I):
        en.prove(st, T.bconst(set(st.ghost.get("sync", {})) == {"mutex", "cond"}), "lock and condition exist before the thread does", self.name)
        en.prove(st, T.bconst(isinstance(a[3], Ptr) and a[3].obj == "W" and a[3].off.const == 0), "the thread gets its worker", self.name)
        if not isinstance(a[2], FnPtr):
            raise Undecided("thread function")
        st.ghost["thread"] = a[2].name
        st.ghost["created"] = st.ghost.get("created", 0) + 1
        st.ghost["image"] = dict(st.mem.get("W~", {}))
        return [(st, I32(0))]

    def h_join(self, en, st, a, I):
        self.req(st, T.bconst(st.ghost["cur"] is not None and st.ghost["cur"].const == self.X and st.ghost["lock"] is None), "the thread is told to exit before it is joined")
        self.req(st, T.bconst(st.ghost["sig"]), "a sleeping worker is woken up")
        st.ghost["joined"] = True
        return [(st, I32(0))]

    def cur(self, st):
        c = st.ghost["cur"]
        if not isinstance(c, T.E):
            c = T.fresh("state", 32, 0, 3)
            st.assume(T.bnot(T.cmp("eq", c, I32(self.S))))
            st.ghost["cur"] = c
        if c.const is None:
            st.assume(T.bor(*[T.cmp("eq", c, I32(v)) for v in (self.R, self.W, self.X)]))      # the only values stored after startup
        return c

    def settle(self, st):
        """states after taking the lock"""
        c = self.cur(st)
        out = []
        for v in (self.S, self.R, self.W, self.X):
            s = st.fork()
            cond = T.cmp("eq", c, I32(v))
            if v in (self.W, self.X) and self.side == "worker":
                cond = T.bor(cond, T.cmp("eq", c, I32(self.R)))
            s.assume(cond)
            if cond.op == "F" or not self.en.feas(s):
                continue
            s.ghost["cur"] = I32(v)
            out.append((s, I32(0)))
        return out

    def h_lock(self, en, st, a, I):
        self.req(st, T.bconst(self.sync(st, None, "mutex", a[0])), "the worker's own lock is taken", "%r" % (a[0],))
        self.req(st, T.bconst(st.ghost["lock"] is None), "the lock is not held already")
        st.ghost["lock"] = "held"
        return self.settle(st)

    def h_unlock(self, en, st, a, I):
        self.req(st, T.bconst(self.sync(st, None, "mutex", a[0]) and st.ghost["lock"] == "held"), "the lock held is released")
        st.ghost["lock"] = None
        self.cur(st)
        if not en.feas(st):
            raise Stop()
        return [(st, I32(0))]

    def h_wait(self, en, st, a, I):
        self.req(st, T.bconst(self.sync(st, None, "cond", a[0]) and self.sync(st, None, "mutex", a[1]) and st.ghost["lock"] == "held"), "waits on its own condition with the lock held")
        c = self.cur(st)
        en.prove(st, T.cmp("eq", c, I32(self.R)), "sleeps only while there is nothing to do", self.name)
        return self.settle(st)

    def h_sig(self, en, st, a, I):
        if self.sync(st, None, "cond", a[0]) and self.side != "worker":
            st.ghost["sig"] = True
        return [(st, I32(0))]

    def a_worker(self, what, en, st, p, v, n):
        g = st.ghost
        if g.get(("at", "W")) is None:
            g[("at", "W")] = p.off.const
        if g[("at", "W")] != p.off.const:
            raise Undecided("more than one atomic in a worker")
        if what == "load":
            c = self.cur(st)
            if g["lock"] is not None or self.starting:
                return c
            s = T.fresh("state", 32, 0, 3)
            r = T.cmp("eq", c, I32(self.R))
            st.assume(T.bor(T.cmp("eq", s, c), T.band(r, T.cmp("eq", s, I32(self.W))), T.band(r, T.cmp("eq", s, I32(self.X)))))
            g["cur"] = s
            return s
        if what != "store" or not isinstance(v, T.E) or v.const is None:
            raise Undecided("state changed by %s %r" % (what, v))
        self.req(st, T.bconst(g["lock"] == "held"), "the worker's state is changed under its lock")
        c = self.cur(st).const
        if c is None:
            raise Undecided("state not known under the lock")
        if self.starting:
            self.req(st, T.bconst(c == self.R and v.const in (self.W, self.X)), "only a ready worker is given work", "%d -> %d" % (c, v.const))
            g["sig"] = False
        else:
            ok = v.const == self.R and ((c == self.S and g["phase"] == "new") or (c == self.W and g["phase"] == "ran"))
            self.req(st, T.bconst(ok), "the worker becomes ready once, after its task was run", "%d -> %d %s" % (c, v.const, g["phase"]))
            g["phase"] = "owe"
            if c == self.W and (not g["own"] or any(not en.same(st.mem["W~"].get(o, (None,))[0], self.image.get(o, (None,))[0]) for o in self.diff)):
                raise Undecided("a ready worker differs from a new one")
            g["own"] = False
        g["cur"] = I32(v.const)

    def a_counter(self, what, en, st, p, v, n):
        g = st.ghost
        if what == "rmw:sub" or what == "rmw:add":
            one = v.const == (1 if what == "rmw:sub" else -1)
            self.req(st, T.bconst(one and g["phase"] == "owe"), "the counter is decremented once per finished task", "%r %s" % (v, g["phase"]))
            self.req(st, T.bconst(bool(order(en.curI) & {"acq_rel", "release", "seq_cst"})), "the decrement publishes the task's writes", en.curI.text)
            g["phase"] = "idle"
            return T.fresh("count", 8 * n, 1, 1 << 20)
        if what == "load":
            return T.fresh("count", 8 * n, 0, 1 << 20)
        self.req(st, T.FALSE, "the worker only decrements the counter", what)
        raise Stop()

    def h_run(self, en, st, a, I):
        g = st.ghost
        t, al = a
        if self.side == "worker":
            self.req(st, T.bconst(g["cur"].const == self.W if isinstance(g["cur"], T.E) else False), "a task is run only when there is one")
            self.req(st, T.bconst(g["phase"] == "idle"), "a task handed over is run once", g["phase"])
            self.req(st, T.bconst(isinstance(t, Ptr) and t.obj == "T" and t.off.const == 0), "the task handed over is run", "%r" % (t,))
            self.req(st, T.bconst(isinstance(al, Ptr) and al.obj == "W"), "the task uses the worker's allocator", "%r" % (al,))
            g["phase"] = "ran"
            en.reached.add("cover:run")
            return [(st, None)]
        ok = isinstance(al, Ptr) and al.obj == "P"
        en.prove(st, T.bconst(ok), "the calling thread's task uses the pool's own allocator", "%s %r" % (self.name, al))
        i, r = divc(t.off, self.ts)
        self.target(st, i)
        g["inl"] = g["inl"] + 1
        return [(st, None)]

    def run_worker(self):
        en = self.en
        en.objs.clear() if False else None
        pb = en.pb
        st = State()
        from .exec import Obj
        en.objs["W"] = Obj("W", size=self.ws, handler=Mem(self, self.a_worker))
        en.objs["C"] = Obj("C", size=self.cs, handler=Mem(self, self.a_counter))
        en.objs["T"] = Obj("T", size=self.ts, handler=Tasks(self))
        z = T.C(pb, 0)
        W, C, Tk = Ptr("W", z), Ptr("C", z), Ptr("T", z)
        st.ghost.update({"lock": "ctor", "cur": I32(self.S), "phase": "new", "own": False, "sig": False})
        self.starting = True
        self.name = "Worker"
        r = en.run("@wk_ctor", [W, C], st)
        if len(r) != 1:
            raise Undecided("constructor branches")
        st = r[0][0]
        en.prove(st, T.bconst(st.ghost.get("created") == 1), "one thread per worker", self.name)
        if not st.ghost.get("created"):
            return en, r
        self.image = st.ghost["image"]
        thread = st.ghost["thread"]
        # the state field: initialised in place
        states = [o for o, x in self.image.items() if x[1] == 4 and isinstance(x[0], T.E) and x[0].const == self.S]
        if not states:
            raise Undecided("initial state")
        base = st
        # hand-over: pool side, worker ready
        st = base.fork()
        st.ghost.update({"lock": None, "cur": I32(self.R), "sig": False})
        self.name = "StartWork"
        self.side = "pool"
        rs = en.run("@wk_start", [W, Tk], st)
        if len(rs) != 1:
            raise Undecided("hand-over branches")
        s = rs[0][0]
        g = s.ghost
        en.prove(s, T.bconst(isinstance(g["cur"], T.E) and g["cur"].const == self.W), "the worker is told that it has work", "StartWork")
        en.prove(s, T.bconst(g["lock"] is None and g["sig"]), "the lock is released and a sleeping worker is woken up", "StartWork")
        if g.get(("at", "W")) not in states:
            raise Undecided("state field %r %r" % (g.get(("at", "W")), states))
        states_at = g[("at", "W")]
        now = s.mem.get("W~", {})
        self.diff = {o: x for o, x in now.items() if o not in self.image or not en.same(x[0], self.image[o][0])}
        self.la = g.get("la", ())
        en.prove(s, T.bconst(any(isinstance(x[0], Ptr) and x[0].obj == "T" for x in self.diff.values())), "the worker is given the task", "StartWork %r" % (self.diff,))
        en.prove(s, T.bconst(len(self.la) >= 1 and isinstance(self.la[-1][1], Ptr) and self.la[-1][1].obj == "W"), "the task is given the worker's allocator", "StartWork %r" % (self.la,))
        # shutting down
        st = base.fork()
        st.ghost.update({"lock": None, "cur": I32(self.R), "sig": False})
        self.name = "~Worker"
        rs = en.run("@wk_dtor", [W], st)
        for s, _ in rs:
            en.prove(s, T.bconst(bool(s.ghost.get("joined"))), "the thread is joined", "~Worker")
        # the thread
        st = base.fork()
        st.ghost.update({"lock": None, "cur": I32(self.S), "sig": False, "phase": "new", "own": False, "la": self.la, ("at", "W"): states_at})
        self.starting, self.side, self.name = False, "worker", "thread"
        rs = en.run(thread, [W], st)
        for s, _ in rs:
            c = s.ghost["cur"]
            en.prove(s, T.cmp("eq", c, I32(self.X)) if isinstance(c, T.E) else T.FALSE, "the thread ends only when told to", "thread")
            en.prove(s, T.bconst(s.ghost["phase"] == "idle" and s.ghost["lock"] is None), "the thread ends with nothing left to do", "thread %s" % s.ghost["phase"])
            en.reached.add("cover:exit")
        if {"cover:exit", "cover:run"} <= en.reached:
            en.reached.add("cover:end")
        return en, rs

    # ------------------------------------------------------------------ pool side
    def target(self, st, i):
        en = self.en
        self.req(st, T.band(T.cmp("sge", i, T.C(i.w, 0)), T.cmp("slt", i, T.sext(self.n, i.w) if self.n.w < i.w else self.n)), "only the caller's tasks are run", "%r" % (i,))
        self.bump(st, "tgt", i, self.Xv)

    def bump(self, st, key, i, x):
        en = self.en
        if key not in self.active:
            return
        x = T.sext(x, i.w) if x.w < i.w else x
        en.hints.append([(i, T.add(i, T.C(i.w, 1), True), x)])
        st.ghost[key] = T.add(st.ghost[key], T.ite(T.cmp("eq", i, x), I32(1), I32(0)), True)

    def size(self, st):
        """current number of workers"""
        off = self.voff
        e = st.mem["P~"][off + self.en.pb // 8][0]
        q, r = divc(e.off, self.en.pb // 8)
        return q

    def handed_out(self, st, w, t):
        en = self.en
        if not (isinstance(w, Ptr) and w.obj == "WS" and isinstance(t, Ptr) and t.obj == "T"):
            en.prove(st, T.FALSE, "a task of the caller is given to a worker of the pool", "%s %r %r" % (self.name, w, t))
            raise Stop()
        self.req(st, T.bconst(st.ghost["armed"]), "the counter is set before work is handed out")
        i, _ = divc(t.off, self.ts)
        j, _ = divc(w.off, self.ws)
        self.target(st, i)
        self.bump(st, "wtg", j, self.Yv)
        st.ghost["last"] = T.C(en.pb, -1)
        return [(st, None)]

    def h_start(self, en, st, a, I):
        return self.handed_out(st, a[0], a[1])

    def h_change(self, en, st, a, I):
        if a[1].const != self.W:
            raise Undecided("pool changes a worker's state to %r" % (a[1],))
        return self.handed_out(st, a[0], a[2])

    def h_ctor(self, en, st, a, I):
        self.req(st, T.bconst(st.ghost["armed"]), "the counter is set before a worker is created")
        c = a[1]
        self.req(st, T.bconst(isinstance(c, Ptr) and c.obj == "P" and c.off.const == self.coff), "workers decrement the pool's counter", "%r" % (c,))
        st.ghost["newobj"] = a[0].obj.split("#")[0]
        st.ghost["last"] = T.C(en.pb, -1)
        return [(st, None)]

    def h_push(self, en, st, a, I):
        v, r = a[0], a[1]
        if self.voff is None:
            self.voff = v.off.const
            raise Stop()
        if v.off.const != self.voff:
            raise Undecided("another vector")
        x = en.load_scalar(st, r, build_ptr())
        self.req(st, T.bconst(isinstance(x, Ptr) and st.ghost["newobj"] is not None and x.obj.split("#")[0] == st.ghost["newobj"]), "a new worker is added to the pool", "%r" % (x,))
        st.ghost["newobj"] = None
        w = en.pb // 8
        m = st.wmem("P~")
        e = m[self.voff + w][0]
        m[self.voff + w] = (Ptr(e.obj, T.add(e.off, T.C(en.pb, w), True)), w)
        return [(st, a[1] if I.ty is not None and I.ty.k == "ptr" else None)]

    def h_dtor(self, en, st, a, I):
        w = a[0]
        if not (isinstance(w, Ptr) and w.obj == "WS"):
            raise Undecided("worker destroyed %r" % (w,))
        j, _ = divc(w.off, self.ws)
        self.bump(st, "gone", j, self.Yv)
        return [(st, None)]

    def h_gone(self, en, st, a, I):
        if self.side != "pool" or a[0].obj != "T":
            return [(st, None)]
        self.checkpoint(st, "before tasks are destroyed", False)
        i, _ = divc(a[0].off, self.ts)
        self.bump(st, "gone", i, self.Xv)
        return [(st, None)]

    def checkpoint(self, st, where, settle=True):
        """everything handed out or created so far has finished"""
        g, en = st.ghost, self.en
        if g["quiet"]:
            return
        cnt = g["cnt"]
        w = cnt.w
        done = T.bor(T.cmp("eq", cnt, T.C(w, 0)), T.cmp("eq", g["last"], T.C(w, 0)))
        self.req(st, done, "the caller waits until the counter is zero", "%s %s" % (self.name, where))
        if g["inl"]:
            want = T.sub(T.sext(self.n, w) if self.n.w < w else self.n, T.C(w, g["inl"]), True)
        else:
            want = T.sub(T.trunc(self.size(st), w), T.trunc(g["sz0"], w), True)
        self.req(st, T.cmp("eq", cnt, want), "the counter was set to the number of workers it waits for", "%s %s" % (self.name, where))
        if settle:
            g["quiet"] = True
            g["armed"] = False
        en.reached.add("cover:wait")

    def a_pool(self, what, en, st, p, v, n):
        g = st.ghost
        if self.coff is None:
            self.coff = p.off.const
        if p.off.const != self.coff:
            raise Undecided("another atomic in the pool")
        if what == "store":
            self.checkpoint(st, "before the counter is set again")
            g.update({"cnt": v, "quiet": False, "armed": True, "last": T.C(self.en.pb, -1), "sz0": self.size(st) if self.voff is not None else None})
            return
        if what == "load":
            if g["quiet"]:
                return T.C(8 * n, 0)
            c = T.fresh("count", 8 * n, 0, 1 << 20)
            z = T.cmp("eq", g["last"], T.C(8 * n, 0))
            st.assume(T.bor(T.bnot(z), T.cmp("eq", c, T.C(8 * n, 0))))       # once everybody has decremented, nobody does
            if not en.valid(st, z):
                g["last"] = c if order(en.curI) & {"acquire", "seq_cst"} else T.C(en.pb, -1)      # a relaxed load does not order the tasks' writes
            return c
        raise Undecided("counter changed by " + what)

    def fresh(self):
        st = State()
        st.ghost.update({"quiet": True, "armed": False, "last": T.C(self.en.pb, -1), "cnt": None, "inl": 0, "tgt": I32(0), "wtg": I32(0), "gone": I32(0),
                         "newobj": None, "lock": None, "sz0": None})
        return st

    def run_pool(self):
        en = self.en
        pb, z = en.pb, T.C(en.pb, 0)
        from .exec import Obj
        self.starting = True
        self.coff = self.voff = None
        en.objs["P"] = Obj("P", size=self.ps, handler=Mem(self, self.a_pool))
        en.objs["T"] = Obj("T", handler=Tasks(self))
        en.objs["WS"] = Obj("WS")
        en.objs["wv"] = Obj("wv", handler=Vec8(self, "WS", self.ws, self.size))
        self.active = ()
        self.n = T.C(32, 2)
        self.Xv, self.Yv = T.C(pb, 0), T.C(pb, 0)
        P, Tk = Ptr("P", z), Ptr("T", z)
        # learn where the vector and the counter lie
        st = self.fresh()
        self.name = "WorkersPool"
        (st, _), = en.run("@wp_ctor", [P], st)
        ctor = st
        s = st.fork()
        try:
            en.run("@wp_exec", [P, I32(2), Tk], s)
        except Undecided:
            pass
        if self.voff is None or self.coff is None:
            raise Undecided("vector or counter not found")
        en.obls.clear()
        w = pb // 8
        rets = []
        for what, act in (("exec", ("tgt", "gone")), ("exec", ("wtg",)), ("vec", ("tgt",)), ("vec", ("wtg",)), ("vec", ("gone",)), ("dtor", ("gone",))):
            self.name = what
            self.active = act
            en.hints.clear()
            st = ctor.fork()
            n0 = T.var("n0", pb, 0, 1 << 16)
            m = st.wmem("P~")
            for k, v in ((0, z), (1, T.scale(n0, w, True)), (2, T.scale(T.var("cap", pb, 0, 1 << 20), w, True))):
                m[self.voff + k * w] = (Ptr("wv", v), w)
            nw = 32 if what == "exec" else pb
            self.n = T.var("n" + what, nw, 1, 1 << 16)
            self.Xv = T.var("X", pb, 0, 1 << 16)
            self.Yv = T.var("Y", pb, 0, 1 << 16)
            N = T.sext(self.n, pb) if nw < pb else self.n
            st.assume(T.cmp("slt", self.Xv, N))
            if what == "exec":
                args = [P, self.n, Tk]
            elif what == "vec":
                en.objs["tv"] = Obj("tv", handler=Vec8(self, "T", self.ts, lambda s: N))
                V = en.new_obj(st, "vec", size=3 * w)
                mm = st.wmem(V.obj)
                for k, v in ((0, z), (1, T.scale(N, w, True)), (2, T.scale(N, w, True))):
                    mm[k * w] = (Ptr("tv", v), w)
                args = [P, V]
            else:
                st.assume(T.cmp("slt", self.Yv, n0))
                args = [P]
            for s, _ in en.run("@wp_" + what, args, st):
                g = s.ghost
                if what == "dtor":
                    en.prove(s, T.cmp("eq", g["gone"], I32(1)), "every worker is destroyed once", what)
                    en.reached.add("cover:end")
                    rets.append(s)
                    continue
                self.checkpoint(s, "before the call returns")
                if "tgt" in act:
                    en.prove(s, T.cmp("eq", g["tgt"], I32(1)), "every task is run exactly once", what)
                if "wtg" in act:
                    en.prove(s, T.cmp("sle", g["wtg"], I32(1)), "no worker is given two tasks", what)
                en.prove(s, T.bconst(g["inl"] == 1), "the calling thread runs one task", what)
                if "gone" in act:
                    en.prove(s, T.cmp("eq", g["gone"], I32(1 if what == "vec" else 0)), "tasks are destroyed once if the pool owns them", what)
                rets.append(s)
        return en, rets


def build_ptr():
    from .ir import Ty
    return Ty("ptr")


def run_worker(config):
    return Pool(config, True).run_worker()


def run_pool(config):
    return Pool(config, False).run_pool()


def lemma():
    """Over the contracts: W is the value the counter was set to, N workers not yet given work, H with work, D done and not yet counted down, F
    counted down, r tasks run, c the counter.  Every step the contracts allow keeps c = N + H + D and r = D + F; so c = 0 means that W tasks ran."""
    import z3
    from .runner import ob_dict
    from .exec import Obligation
    V = [z3.Int(x) for x in "WNHDFrc"]
    inv = lambda W, N, H, D, F, r, c: z3.And(N >= 0, H >= 0, D >= 0, F >= 0, N + H + D + F == W, c == N + H + D, r == D + F)
    W, N, H, D, F, r, c = V
    steps = {"the counter is set": (z3.BoolVal(True), (W, W, 0, 0, 0, 0, W), False),
             "a worker is given work": (N > 0, (W, N - 1, H + 1, D, F, r, c), True),
             "a worker has run its task": (H > 0, (W, N, H - 1, D + 1, F, r + 1, c), True),
             "a worker counts down": (D > 0, (W, N, H, D - 1, F + 1, r, c - 1), True)}
    out = []

    def prove(name, hyp, goal):
        s = z3.Solver()
        s.add(hyp, z3.Not(goal))
        ok = s.check() == z3.unsat
        out.append(ob_dict(Obligation("protocol: " + name, "lemma over the contracts", "discharged" if ok else "refuted", solve.Result("unsat" if ok else "sat", {}))))
    for n, (g, post, pre) in steps.items():
        prove(n, z3.And(W >= 0, g, inv(*V) if pre else z3.BoolVal(True)), inv(*post))
    prove("counter zero means every task ran", z3.And(inv(*V), c == 0), z3.And(r == W, N == 0, H == 0, D == 0))
    return out
