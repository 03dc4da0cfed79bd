"""Symbolic execution / verification-condition generation over the extracted IR."""
import struct, time
from . import ir, term as T, solve
from .ir import IRUnsupported
from .term import E, B


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "&%s+%r" % (self.obj, self.off)


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "fn" + self.name


class Vec(list):
    pass


class Agg(list):
    pass


class Stop(Exception):
    pass


class Undecided(Exception):
    """the engine cannot decide; never a violation"""


class SymbolicExit(Exception):
    def __init__(self, loop):
        self.loop = loop


class Obj:
    """memory object. kind: local (record map), ext (handler supplies load/store)"""

    def __init__(self, name, size=None, elem=None, handler=None, sym=False, meta=None):
        self.name, self.size, self.elem, self.handler, self.sym, self.meta = name, size, elem, handler, sym, meta


class State:
    __slots__ = ("env", "mem", "pc", "ghost", "frames", "dead", "trace", "objs")

    def __init__(self):
        self.env = {}
        self.mem = {}     # obj name -> {off: (val, size)}
        self.pc = []
        self.ghost = {}
        self.trace = []
        self.objs = {}    # obj name -> Obj

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.trace = list(self.trace)
        s.objs = self.objs
        return s

    def wmem(self, name):
        m = dict(self.mem.get(name, ()))
        self.mem[name] = m
        return m

    def assume(self, b):
        if b.op == "and":
            for c in b.args:
                self.assume(c)
            return
        if b.op != "T" and b not in self.pc:
            self.pc.append(b)


class Obligation:
    def __init__(self, name, where, status, res=None, detail="", st=None):
        self.name, self.where, self.status, self.res, self.detail = name, where, status, res, detail

    def __repr__(self):
        return "<%s %s %s>" % (self.name, self.status, self.where)


FCMP = {"oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno"}


class Engine:
    def __init__(self, mod, mode="bv", hooks=None, unroll=100000, sym_unroll=0, check_ub=False, timeout=60,
                 fp="uf", check_bounds=True):
        self.m = mod
        self.L = mod.layout
        self.mode = mode
        self.hooks = hooks if hooks is not None else {}
        self.obls = []
        self.unroll = unroll
        self.sym_unroll = sym_unroll
        self.check_ub = check_ub
        self.timeout = timeout
        self.pb = mod.ptrsize * 8
        self.nobj = 0
        self.objs = {}
        self.reached = set()
        self.fstack = []
        self.cutloops = {}
        self.quiet = 0
        self.exact_all = mode == "int"
        self.check_bounds = check_bounds
        self.steps = 0
        self.max_steps = 5000000
        self.deadline = None
        self.check_timeout = timeout

    # ------------------------------------------------------------ obligations
    def prove(self, st, goal, name, where=""):
        """record an obligation; returns True if discharged"""
        if self.deadline and time.time() > self.deadline:
            self.obls.append(Obligation(name, where, "undecided", detail="deadline"))
            return False
        if self.mode == "bv":
            r = solve.check_bv(st.pc, goal, self.timeout)
        else:
            r = solve.check_int(st.pc, goal, self.timeout)
        stt = {"unsat": "discharged", "sat": "refuted", "unknown": "undecided"}[r.status]
        o = Obligation(name, where, stt, r, detail=repr(goal)[:2000])
        o.pc = [repr(x)[:300] for x in st.pc] if stt != "discharged" else None
        self.obls.append(o)
        return r.status == "unsat"

    def valid(self, st, goal, timeout=None):
        if goal.op == "T":
            return True
        if goal in st.pc:
            return True
        t = timeout or self.timeout
        r = solve.check_bv(st.pc, goal, t) if self.mode == "bv" else solve.check_int(st.pc, goal, t)
        return r.status == "unsat"

    def feas(self, st):
        return solve.feasible(st.pc, self.mode)

    # ------------------------------------------------------------ objects
    def new_obj(self, st, name, **kw):
        self.nobj += 1
        nm = "%s#%d" % (name, self.nobj)
        o = Obj(nm, **kw)
        self.objs[nm] = o
        st.mem[nm] = {}
        return Ptr(nm, T.C(self.pb, 0))

    # ------------------------------------------------------------ values
    def zero(self, ty):
        if ty.k == "int":
            return T.FALSE if ty.n == 1 else T.C(ty.n, 0)
        if ty.k in ("float", "double", "half"):
            return T.C(self.L.size(ty) * 8, 0)
        if ty.k == "ptr":
            return Ptr("null", T.C(self.pb, 0))
        if ty.k == "vec":
            return Vec(self.zero(ty.el) for _ in range(ty.n))
        if ty.k == "arr":
            return Agg(self.zero(ty.el) for _ in range(ty.n))
        if ty.k == "struct":
            return Agg(self.zero(f) for f in ty.fields)
        raise IRUnsupported("zero %r" % ty)

    def fresh(self, ty, nm="u"):
        if ty.k == "int":
            return T.bvar(T.fresh_name(nm)) if ty.n == 1 else T.fresh(nm, ty.n)
        if ty.k in ("float", "double", "half"):
            return T.fresh(nm, self.L.size(ty) * 8)
        if ty.k == "ptr":
            return Ptr("undef", T.C(self.pb, 0))
        if ty.k == "vec":
            return Vec(self.fresh(ty.el, nm) for _ in range(ty.n))
        if ty.k == "arr":
            return Agg(self.fresh(ty.el, nm) for _ in range(ty.n))
        if ty.k == "struct":
            return Agg(self.fresh(f, nm) for f in ty.fields)
        raise IRUnsupported("fresh %r" % ty)

    def fpbits(self, s, ty):
        if s.startswith("0x"):
            v = int(s[2:], 16)
            d = struct.unpack("<d", struct.pack("<Q", v))[0]
        else:
            d = float(s)
        if ty.k == "double":
            return struct.unpack("<Q", struct.pack("<d", d))[0]
        if ty.k == "float":
            return struct.unpack("<I", struct.pack("<f", d))[0]
        raise IRUnsupported("fp const")

    def val(self, op, st):
        k = op.k
        if k == "local":
            return st.env[op.v]
        if k == "int":
            if op.ty.k == "int" and op.ty.n == 1:
                return T.bconst(op.v & 1)
            return T.C(op.ty.n, op.v)
        if k == "fp":
            return T.C(self.L.size(op.ty) * 8, self.fpbits(op.v, op.ty))
        if k == "null":
            return Ptr("null", T.C(self.pb, 0))
        if k == "undef":
            return self.fresh(op.ty, "undef")
        if k == "zero":
            return self.zero(op.ty)
        if k == "agg":
            return (Vec if op.ty.k == "vec" else Agg)(self.val(x, st) for x in op.v)
        if k == "str":
            return Agg(T.C(8, b) for b in op.v)
        if k == "global":
            if op.v in self.m.funcs or op.v in self.m.decls:
                return FnPtr(op.v)
            return Ptr("g:" + op.v, T.C(self.pb, 0))
        if k == "gep":
            bt, base, idx = op.v
            return self.gep(bt, self.val(base, st), [self.val(i, st) for i in idx], st)
        if k == "cast":
            o, v = op.v
            return self.cast(o, self.val(v, st), v.ty, op.ty, st, set())
        if k == "cbin":
            o, a, b = op.v
            return self.binop(o, self.val(a, st), self.val(b, st), op.ty, set(), st, None)
        raise IRUnsupported("operand " + k)

    def as_i(self, e, w):
        """index value sign-extended to w bits"""
        if e.w == w:
            return e
        if e.w < w:
            return self.sext(e, w)
        return T.trunc(e, w)

    def sext(self, e, w):
        return T.sext(e, w)

    def padd(self, p, d):
        return Ptr(p.obj, T.add(p.off, d, True))

    def gep(self, bt, base, idx, st):
        if isinstance(base, Vec):
            raise IRUnsupported("vector gep")
        if isinstance(base, FnPtr):
            raise IRUnsupported("gep on function")
        off = base.off
        i0 = self.as_i(idx[0], self.pb)
        off = T.add(off, T.scale(i0, self.L.alloc(bt), True), True)
        ty = bt
        for i in idx[1:]:
            if ty.k == "struct":
                j = i.const
                off = T.add(off, T.C(self.pb, self.L.field_off(ty, j)), True)
                ty = ty.fields[j]
            elif ty.k in ("arr", "vec"):
                off = T.add(off, T.scale(self.as_i(i, self.pb), self.L.alloc(ty.el), True), True)
                ty = ty.el
            else:
                raise IRUnsupported("gep into %r" % ty)
        # pointer offsets are mathematical integers (address arithmetic does not wrap)
        off = E(off.w, off.t, True)
        return Ptr(base.obj, off)

    # ------------------------------------------------------------ arithmetic
    def binop(self, o, a, b, ty, fl, st, ins):
        if isinstance(a, Vec):
            return Vec(self.binop(o, x, y, ty.el, fl, st, ins) for x, y in zip(a, b))
        if ty.k in ("float", "double", "half"):
            return self.fpop(o, [a, b], ty)
        if ty.k == "int" and ty.n == 1:
            return {"and": lambda: T.band(a, b), "or": lambda: T.bor(a, b), "xor": lambda: T.bnot(T.beq(a, b)),
                    "add": lambda: T.bnot(T.beq(a, b)), "sub": lambda: T.bnot(T.beq(a, b)),
                    "mul": lambda: T.band(a, b)}[o]()
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptrarith(o, a, b)
        nsw = "nsw" in fl
        if o in ("add", "sub", "mul"):
            f = {"add": T.add, "sub": T.sub, "mul": T.mul}[o]
            if self.check_ub and nsw:
                self.ub_check(o, a, b, st, ins)
            # nsw: signed wrap is undefined behaviour at source level, so the
            # mathematical value is the value; 64-bit index arithmetic in int
            # mode likewise (assumption: sizes fit the address space)
            ex = nsw or (self.exact_all and a.w >= 64)
            r = f(a, b, ex)
            if self.mode == "int" and not r.exact and a.exact and b.exact and a.w == 32:
                # wrapping arithmetic: the mathematical value when it is proved to fit
                x = f(a, b, True)
                if self.valid(st, T.band(T.cmp("sge", x, T.C(32, -(1 << 31))), T.cmp("sle", x, T.C(32, (1 << 31) - 1))), 5):
                    return x
            return r if r.exact else T.tighten(r)
        if o in ("sdiv", "udiv", "srem", "urem"):
            if self.mode == "int" and o[0] == "u" and a.exact and b.exact:
                z = T.C(a.w, 0)
                if self.valid(st, T.band(T.cmp("sge", a, z), T.cmp("sge", b, z))):
                    o = "s" + o[1:]
            return T.div(o, a, b)
        if o in ("and", "or", "xor"):
            if o == "or" and "disjoint" in fl:
                return T.add(a, b, True)
            return T.bitop(o, a, b)
        if o == "shl":
            return T.shl(a, b, "nsw" in fl or (self.exact_all and a.w >= 64))
        if o == "lshr":
            return T.lshr(a, b)
        if o == "ashr":
            return T.ashr(a, b)
        raise IRUnsupported("binop " + o)

    def ub_check(self, o, a, b, st, ins):
        if a.const is not None and b.const is not None:
            return
        w = a.w
        f = {"add": T.add, "sub": T.sub, "mul": T.mul}[o]
        W = 2 * w if o == "mul" else w + 1
        wide = f(T.sext(a, W), T.sext(b, W))
        lo, hi = T.C(W, -(1 << (w - 1))), T.C(W, (1 << (w - 1)) - 1)
        g = T.band(T.cmp("sle", lo, wide), T.cmp("sle", wide, hi))
        if g.op == "T":
            return
        self.prove(st, g, "no-signed-overflow", ins.text if ins else "")

    def ptrarith(self, o, a, b):
        # integers holding pointers: only and-masking for alignment tests / differences
        if o == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            return T.sub(a.off, b.off, True)
        if o == "add" and isinstance(a, Ptr) and isinstance(b, E):
            return self.padd(a, b)
        if o == "add" and isinstance(b, Ptr) and isinstance(a, E):
            return self.padd(b, a)
        if o == "sub" and isinstance(a, Ptr) and isinstance(b, E):
            return Ptr(a.obj, T.sub(a.off, b, True))
        if o == "and" and isinstance(a, Ptr) and isinstance(b, E) and b.const is not None:
            return self.ptrmask(a, b)
        if o == "urem" and isinstance(a, Ptr) and isinstance(b, E) and b.const is not None and b.const > 0 and b.const & (b.const - 1) == 0:
            return self.ptrmask(a, T.C(b.w, b.const - 1))
        raise IRUnsupported("pointer arithmetic " + o)

    def ptrmask(self, a, b):
        ob = self.objs.get(a.obj)
        al = (ob.meta or {}).get("align", 1) if ob else 1
        c = b.const
        if c > 0 and (c + 1) & c == 0 and al % (c + 1) == 0:   # low-bit test of an aligned object
            return T.bitop("and", a.off, b)
        if c < 0 and al % (-c) == 0:
            return Ptr(a.obj, E(a.off.w, T.bitop("and", a.off, b).t, True))
        if c > 0 and (c + 1) & c == 0 and c < 4096 and ob:      # an arbitrary base address, as aligned as the object is
            base = T.scale(T.var("base:" + a.obj, a.off.w, 0, (1 << 40) // al), al, True)
            return T.bitop("and", T.add(base, a.off, True), b)
        raise IRUnsupported("pointer mask on object of unknown alignment")

    def fpop(self, o, args, ty):
        w = self.L.size(ty) * 8
        if all(x.const is not None for x in args):
            return T.C(w, self.fpconst(o, [x.uconst for x in args], ty))
        if o in ("fmul", "fadd") and args[0].key > args[1].key:
            args = [args[1], args[0]]
        return T.app("fp:" + o + str(w), tuple(args), w)

    def unpackf(self, bits, w):
        return struct.unpack("<d", struct.pack("<Q", bits))[0] if w == 64 else \
            struct.unpack("<f", struct.pack("<I", bits))[0]

    def packf(self, d, w):
        if w == 64:
            return struct.unpack("<Q", struct.pack("<d", d))[0]
        try:
            return struct.unpack("<I", struct.pack("<f", d))[0]
        except OverflowError:
            return 0x7f800000 if d > 0 else 0xff800000

    def fpconst(self, o, a, ty):
        w = self.L.size(ty) * 8
        v = [self.unpackf(x, w) for x in a]
        if o == "fadd":
            r = v[0] + v[1]
        elif o == "fsub":
            r = v[0] - v[1]
        elif o == "fmul":
            r = v[0] * v[1]
        elif o == "fdiv":
            if v[1] == 0:
                raise IRUnsupported("fp div by zero constant")
            r = v[0] / v[1]
        elif o == "fneg":
            r = -v[0]
        else:
            raise IRUnsupported("fp const op " + o)
        return self.packf(r, w)

    def bits(self, v, ty):
        if isinstance(v, Vec):
            if ty.el.k == "int" and ty.el.n == 1:
                return T.concat([T.b2i(x, 1, 1) for x in v])
            return T.concat([self.bits(x, ty.el) for x in v])
        if isinstance(v, B):
            return T.b2i(v, 1)
        return v

    def unbits(self, e, ty):
        if ty.k == "vec":
            if ty.el.k == "ptr":
                raise IRUnsupported("vector of pointers")
            w = self.L.size(ty.el) * 8 if not (ty.el.k == "int" and ty.el.n < 8) else ty.el.n
            return Vec(self.unbits(T.extract(e, i * w, w), ty.el) for i in range(ty.n))
        if ty.k == "int" and ty.n == 1:
            return T.bnot(T.cmp("eq", e, T.C(e.w, 0)))
        return e

    def cast(self, o, v, fty, ty, st, fl):
        if isinstance(v, Vec) and o != "bitcast":
            return Vec(self.cast(o, x, fty.el, ty.el, st, fl) for x in v)
        if o == "bitcast":
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if fty.k == ty.k == "vec" and fty.n == ty.n and self.L.size(fty) == self.L.size(ty) \
                    and not (fty.el.k == "int" and fty.el.n < 8):
                return v
            if fty.k != "vec" and ty.k != "vec":
                return v
            if fty.k == "vec" and ty.k == "vec" and not (fty.el.k == "int" and fty.el.n < 8):
                a, b = self.L.size(fty.el) * 8, self.L.size(ty.el) * 8
                if b > a:
                    r = b // a
                    return Vec(T.concat([v[i * r + j] for j in range(r)]) for i in range(ty.n))
                r = a // b
                return Vec(T.extract(v[i // r], (i % r) * b, b) for i in range(ty.n))
            return self.unbits(self.bits(v, fty), ty)
        if o in ("ptrtoint", "inttoptr", "addrspacecast"):
            if o == "ptrtoint" and ty.n < self.pb:
                if isinstance(v, Ptr) and v.obj == "null":
                    return T.trunc(v.off, ty.n)
                return T.fresh("ptrint", ty.n)
            if o == "inttoptr" and isinstance(v, E):
                return Ptr("null", self.as_i(v, self.pb))
            if o == "ptrtoint" and isinstance(v, Ptr) and v.obj == "null":
                return v.off
            return v
        if o == "zext":
            if isinstance(v, B):
                return T.b2i(v, ty.n)
            if self.mode == "int" and v.exact and T.erange(v)[0] < 0:
                if "nneg" in fl or self.valid(st, T.cmp("sge", v, T.C(v.w, 0))):
                    return T.sext(v, ty.n)
            return T.zext(v, ty.n)
        if o == "sext":
            if isinstance(v, B):
                return T.b2i(v, ty.n, -1)
            return T.sext(v, ty.n)
        if o == "trunc":
            if isinstance(v, Ptr):
                return T.fresh("ptrint", ty.n)
            if ty.n == 1:
                return T.bnot(T.cmp("eq", T.trunc(v, 1), T.C(1, 0)))
            r = T.trunc(v, ty.n)
            if self.mode == "int" and v.exact and not r.exact:
                H = 1 << (ty.n - 1)
                if self.valid(st, T.band(T.cmp("sle", T.C(v.w, -H), v), T.cmp("slt", v, T.C(v.w, H)))):
                    r2 = self.trunc_exact(v, ty.n)
                    if r2 is not None:
                        return r2
                    # the value fits on this path: same integer, narrower type
                    return T.app("narrow", (v,), ty.n)
            return r
        if o in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            w = self.L.size(ty) * 8
            if isinstance(v, B):
                v = T.b2i(v, 32)
            if v.const is not None:
                if o == "sitofp":
                    return T.C(w, self.packf(float(v.const), w))
                if o == "uitofp":
                    return T.C(w, self.packf(float(v.uconst), w))
                if o in ("fpext", "fptrunc"):
                    return T.C(w, self.packf(self.unpackf(v.uconst, v.w), w))
                return T.C(w, int(self.unpackf(v.uconst, v.w)))
            if o == "fptosi" and getattr(self, "fptosi_range", None):
                return T.app("fp:%s%d_%d" % (o, v.w, w), (v,), w, *self.fptosi_range)
            return T.app("fp:%s%d_%d" % (o, v.w, w), (v,), w)
        raise IRUnsupported("cast " + o)

    def trunc_exact(self, v, w):
        """integer value known to fit: keep the same polynomial"""
        t = {}
        for m, c in v.t.items():
            r = {(): c}
            ids = []
            for i in m:
                a = T.A(i)
                e = T.trunc_atom(a, w)
                s = e.single
                if s is None:
                    return None
                ids.append(s.id)
            k = tuple(sorted(ids))
            t[k] = t.get(k, 0) + c
        # sound only if every truncated atom keeps its value: require sext/zext sources or in-range atoms
        for m in v.t:
            for i in m:
                a = T.A(i)
                if a.op == "sext" and a.args[0].w <= w:
                    continue
                lo, hi = T.arange(a)
                if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
                    continue
                return None
        return E(w, t, True)

    def icmp(self, pred, a, b, ty, st):
        if isinstance(a, Vec):
            return Vec(self.icmp(pred, x, y, ty.el, st) for x, y in zip(a, b))
        if isinstance(a, B):
            e = T.beq(a, b)
            if pred == "eq":
                return e
            if pred == "ne":
                return T.bnot(e)
            a, b = T.b2i(a, 8, 1), T.b2i(b, 8, 1)
            return T.cmp(pred, a, b)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                same = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return T.bconst(same == (pred == "eq"))
            if isinstance(a, E):
                a = Ptr("null", a)
            if isinstance(b, E):
                b = Ptr("null", b)
            if a.obj == b.obj:
                return T.cmp(pred.replace("u", "s") if pred[0] == "u" and self.mode == "int" else pred, a.off, b.off)
            if "undef" in (a.obj, b.obj):
                return T.bvar(T.fresh_name("undefcmp"))
            ha = self.objs.get(a.obj)
            if "null" in (a.obj, b.obj):
                other = b if a.obj == "null" else a
                ob = self.objs.get(other.obj)
                if ob is not None and (ob.meta or {}).get("maybe_null") is not None:
                    nb = ob.meta["maybe_null"]
                    return nb if pred == "eq" else T.bnot(nb)
            if pred == "eq":
                return T.FALSE
            if pred == "ne":
                return T.TRUE
            return T.bvar(T.fresh_name("ptrcmp"))
        if self.mode == "int" and pred[0] == "u" and a.exact and b.exact:
            z = T.C(a.w, 0)
            r = T.cmp(pred, a, b)
            if r.op == "cmp" and r.args[0][0] == "u":
                if self.valid(st, T.band(T.cmp("sge", a, z), T.cmp("sge", b, z))):
                    return T.cmp("s" + pred[1:], a, b)
            return r
        return T.cmp(pred, a, b)

    def select(self, c, a, b, ty):
        if isinstance(c, Vec):
            return Vec(self.select(x, y, z, ty.el) for x, y, z in zip(c, a, b))
        if c.op == "T":
            return a
        if c.op == "F":
            return b
        if isinstance(a, Vec):
            return Vec(self.select(c, x, y, ty.el) for x, y in zip(a, b))
        if isinstance(a, B):
            return T.bite(c, a, b)
        if isinstance(a, E):
            return T.ite(c, a, b)
        if isinstance(a, Ptr) and a.obj == b.obj:
            return Ptr(a.obj, T.ite(c, a.off, b.off))
        if isinstance(a, Agg):
            return None
        return None  # needs a fork

    # ------------------------------------------------------------ memory
    def obj_of(self, p, st):
        if p.obj in self.objs and (p.obj in st.mem or not p.obj.startswith("g:")):
            return self.objs[p.obj]
        if p.obj.startswith("g:"):
            return self.init_global(p.obj, st)
        if getattr(self, "skim", 0):
            raise Stop()            # an arbitrary loop-head state that does not occur
        raise Undecided("access through %s pointer" % p.obj)

    def init_global(self, name, st):
        if name not in self.objs:
            g = self.m.globals.get(name[2:])
            if g is None or g[0] is None:
                raise IRUnsupported("global " + name)
            self.objs[name] = Obj(name, size=self.L.size(g[0]))
        if name not in st.mem:
            g = self.m.globals[name[2:]]
            st.mem[name] = {}
            if g[1] is not None:
                self.store_typed(st, Ptr(name, T.C(self.pb, 0)), self.val(g[1], st), g[0])
        return self.objs[name]

    def leaf_types(self, ty, off=0):
        if ty.k == "vec":
            s = self.L.size(ty.el)
            for i in range(ty.n):
                yield off + i * s, ty.el
        elif ty.k == "arr":
            s = self.L.alloc(ty.el)
            for i in range(ty.n):
                yield from self.leaf_types(ty.el, off + i * s)
        elif ty.k == "struct":
            for i, f in enumerate(ty.fields):
                yield from self.leaf_types(f, off + self.L.field_off(ty, i))
        else:
            yield off, ty

    def flat(self, v):
        if isinstance(v, (Vec, Agg)):
            for x in v:
                yield from self.flat(x)
        else:
            yield v

    def unflat(self, it, ty):
        if ty.k == "vec":
            return Vec(next(it) for _ in range(ty.n))
        if ty.k == "arr":
            return Agg(self.unflat(it, ty.el) for _ in range(ty.n))
        if ty.k == "struct":
            return Agg(self.unflat(it, f) for f in ty.fields)
        return next(it)

    def store_typed(self, st, p, v, ty):
        if ty.k == "vec" and ty.el.k == "int" and ty.el.n < 8:
            raise IRUnsupported("store of bool vector")
        ob = self.obj_of(p, st)
        if ob.handler is not None and hasattr(ob.handler, "store_typed"):
            return ob.handler.store_typed(self, st, ob, p, v, ty)
        for (off, lt), x in zip(self.leaf_types(ty), self.flat(v)):
            self.store_scalar(st, p if off == 0 else self.padd(p, T.C(self.pb, off)), x, lt)

    def load_typed(self, st, p, ty):
        ob = self.obj_of(p, st)
        if ob.handler is not None and hasattr(ob.handler, "load_typed"):
            return ob.handler.load_typed(self, st, ob, p, ty)
        vals = [self.load_scalar(st, p if off == 0 else self.padd(p, T.C(self.pb, off)), lt)
                for off, lt in self.leaf_types(ty)]
        return self.unflat(iter(vals), ty)

    def bounds(self, st, ob, p, n, what):
        if ob.size is None or not self.check_bounds:
            return
        o = p.off.const
        if o is not None and isinstance(ob.size, int):
            if o < 0 or o + n > ob.size:
                self.obls.append(Obligation("in-bounds", "%s of %d bytes at %r" % (what, n, p), "refuted",
                                            solve.Result("sat", {}), detail="object size %r" % ob.size))
                raise Stop()
            return
        sz = ob.size if isinstance(ob.size, E) else T.C(self.pb, ob.size)
        g = T.band(T.cmp("sle", T.C(self.pb, 0), p.off),
                   T.cmp("sle", T.add(p.off, T.C(self.pb, n), True), sz))
        self.prove(st, g, "in-bounds", "%s %r" % (what, p))

    def store_scalar(self, st, p, v, ty):
        ob = self.obj_of(p, st)
        n = self.L.size(ty)
        if ob.handler is not None:
            return ob.handler.store(self, st, ob, p, v, n)
        self.bounds(st, ob, p, n, "store")
        o = p.off.const
        if o is None:
            return self.sym_store(st, ob, p, v, ty, n)
        if isinstance(v, B):
            v = T.b2i(v, n * 8)
        elif isinstance(v, E) and v.w < n * 8:
            v = T.zext(v, n * 8)
        m = st.wmem(p.obj)
        # remove overlapping records
        for q in [q for q in m if q < o + n and q + m[q][1] > o]:
            val, sz = m.pop(q)
            if q < o:
                m[q] = (T.extract(val, 0, (o - q) * 8), o - q) if isinstance(val, E) else (T.fresh("frag", (o - q) * 8), o - q)
            if q + sz > o + n:
                k = q + sz - o - n
                m[o + n] = (T.extract(val, (sz - k) * 8, k * 8), k) if isinstance(val, E) else (T.fresh("frag", k * 8), k)
        m[o] = (v, n)

    def sym_store(self, st, ob, p, v, ty, n):
        raise Undecided("store at symbolic offset %r" % p)

    def sym_load(self, st, ob, p, ty, n):
        raise Undecided("load at symbolic offset %r" % p)

    def load_scalar(self, st, p, ty):
        ob = self.obj_of(p, st)
        n = self.L.size(ty)
        if ob.handler is not None:
            return self.typed(ob.handler.load(self, st, ob, p, n, ty), ty)
        self.bounds(st, ob, p, n, "load")
        o = p.off.const
        if o is None:
            return self.typed(self.sym_load(st, ob, p, ty, n), ty)
        m = st.mem.get(p.obj, {})
        if o in m and m[o][1] == n:
            return self.typed(m[o][0], ty)
        ps = []
        pos = o
        while pos < o + n:
            hit = None
            if pos in m:
                hit = pos
            else:
                for q in m:
                    if q <= pos < q + m[q][1]:
                        hit = q
                        break
            if hit is not None:
                val, sz = m[hit]
                k = min(hit + sz, o + n) - pos
                if not isinstance(val, E):
                    raise IRUnsupported("partial load of pointer")
                ps.append(T.extract(val, (pos - hit) * 8, k * 8))
                pos += k
            else:
                if ob.elem and ob.sym:
                    b = pos - pos % ob.elem
                    x = T.var("%s[%d]" % (ob.name.split("#")[0], b // ob.elem), ob.elem * 8)
                    mm = st.wmem(p.obj)
                    mm[b] = (x, ob.elem)
                    m = mm
                else:
                    nxt = min([q for q in m if q > pos] + [o + n])
                    k = nxt - pos
                    if ty.k == "ptr" and k == n:
                        return Ptr("undef", T.C(self.pb, 0))
                    x = T.fresh("uninit_%s" % ob.name.split("#")[0], k * 8)
                    mm = st.wmem(p.obj)
                    mm[pos] = (x, k)
                    m = mm
        r = T.concat(ps)
        return self.typed(r, ty)

    def typed(self, v, ty):
        if ty.k == "int":
            if isinstance(v, (Ptr, FnPtr)):
                return v
            if ty.n == 1 and isinstance(v, E):
                return T.bnot(T.cmp("eq", T.trunc(v, 1), T.C(1, 0)))
            if isinstance(v, E) and v.w > ty.n:
                return T.trunc(v, ty.n)
        if ty.k == "ptr" and isinstance(v, E):
            return Ptr("null", v)
        return v

    def memcpy(self, st, d, s, n):
        sob, dob = self.obj_of(s, st), self.obj_of(d, st)
        if dob.handler is not None and hasattr(dob.handler, "memcpy"):
            return dob.handler.memcpy(self, st, d, s, n)
        if sob.handler is not None and hasattr(sob.handler, "memcpy_from"):
            return sob.handler.memcpy_from(self, st, d, s, n)
        if n.const is None:
            raise Undecided("memcpy of symbolic size")
        n = n.const
        if sob.handler is None and dob.handler is None and s.off.const is not None and d.off.const is not None:
            so, do = s.off.const, d.off.const
            self.bounds(st, sob, s, n, "memcpy-src") if n else None
            self.bounds(st, dob, d, n, "memcpy-dst") if n else None
            pos = so
            recs = []
            m = st.mem.get(s.obj, {})
            cov = so
            for q in sorted(m):
                v, sz = m[q]
                if q + sz <= so or q >= so + n:
                    continue
                a, b = max(q, so), min(q + sz, so + n)
                if (a, b) != (q, q + sz):
                    if not isinstance(v, E):
                        raise IRUnsupported("memcpy splits pointer")
                    v = T.extract(v, (a - q) * 8, (b - a) * 8)
                recs.append((a - so, v, b - a))
            if sob.sym:
                # materialise symbolic elements
                have = set()
                for a, v, k in recs:
                    have.update(range(a, a + k))
                if len(have) < n:
                    for i in range(0, n, sob.elem or 1):
                        if i not in have:
                            x = self.load_scalar(st, self.padd(s, T.C(self.pb, i)), ir.ity((sob.elem or 1) * 8))
                            recs.append((i, x, sob.elem or 1))
            for a, v, k in recs:
                dm = st.wmem(d.obj)
                o = do + a
                for q in [q for q in dm if q < o + k and q + dm[q][1] > o]:
                    if q >= o and q + dm[q][1] <= o + k:
                        dm.pop(q)
                    else:
                        val, sz = dm.pop(q)
                        if q < o:
                            dm[q] = (T.extract(val, 0, (o - q) * 8), o - q)
                        if q + sz > o + k:
                            r = q + sz - o - k
                            dm[o + k] = (T.extract(val, (sz - r) * 8, r * 8), r)
                dm[o] = (v, k)
            return
        for i in range(n):
            v = self.load_scalar(st, self.padd(s, T.C(self.pb, i)), ir.ity(8))
            self.store_scalar(st, self.padd(d, T.C(self.pb, i)), v, ir.ity(8))

    def memset(self, st, d, v, n):
        dob = self.obj_of(d, st)
        if dob.handler is not None and hasattr(dob.handler, "memset"):
            return dob.handler.memset(self, st, d, v, n)
        if n.const is None:
            raise Undecided("memset of symbolic size")
        n = n.const
        i = 0
        while i < n:
            k = 8 if n - i >= 8 else 1
            x = T.concat([v] * k)
            self.store_scalar(st, self.padd(d, T.C(self.pb, i)), x, ir.ity(8 * k))
            i += k

    # ------------------------------------------------------------ functions
    def run(self, name, args, st):
        """returns list of (state, retval)"""
        f = self.m.funcs[name]
        if f.loops is None:
            ir.analyse_loops(f)
        self.reached.add(name)
        saved = st.env
        st.env = {}
        for (pn, pt), a in zip(f.params, args):
            st.env[pn] = a
        self.fstack.append(f)
        try:
            back, exits, rets = self.region(f, None, [(f.entry, 0, None, st)])
        finally:
            self.fstack.pop()
        out = []
        for s, v in rets:
            s.env = saved if len(rets) == 1 else dict(saved)
            out.append((s, v))
        return out

    def region(self, f, loop, work, only=None):
        """only: explore just these blocks of the loop (those that can still leave it in this iteration)"""
        backs, exits, rets = [], [], []
        work = list(work)
        first = True
        while work:
            blk, idx, prev, st = work.pop()
            if idx == 0:
                if loop is not None:
                    if blk == loop.header and not first:
                        backs.append((blk, prev, st))
                        continue
                    if blk not in loop.blocks:
                        exits.append((blk, prev, st))
                        continue
                    if only is not None and blk not in only:
                        continue
                if blk in f.loops and not (loop is not None and blk == loop.header):
                    L = f.loops[blk]
                    ex, rt = self.exec_loop(f, L, prev, st)
                    for b, p, s in ex:
                        # exits may leave outer loops too
                        if loop is not None and b == loop.header:
                            backs.append((b, p, s))
                        elif loop is not None and b not in loop.blocks:
                            exits.append((b, p, s))
                        else:
                            work.append((b, 0, p, s))
                    rets += rt
                    first = False
                    continue
                self.do_phis(f, blk, prev, st)
            first = False
            try:
                r = self.exec_block(f, blk, idx, prev, st, loop)
            except Stop:
                continue
            if r[0] == "ret":
                rets.append((st, r[1]))
            elif r[0] == "succ":
                for b, p, s in r[1]:
                    work.append((b, 0, p, s))
            elif r[0] == "cont":
                work.extend(r[1])
        return backs, exits, rets

    def exec_loop(self, f, L, prev, st):
        key = (f.name, L.header)
        if key not in self.cutloops and not self.force_cut(f, L, st):
            saved = st.fork()
            nob = len(self.obls)
            try:
                return self.unroll_loop(f, L, prev, st)
            except SymbolicExit as e:
                if e.loop is not L:
                    raise
                del self.obls[nob:]
                self.cutloops[key] = True
                st = saved
        return self.cut_loop(f, L, prev, st)

    def force_cut(self, f, L, st):
        return False

    def cut_loop(self, f, L, prev, st):
        raise Undecided("symbolic loop without invariant support in %s at %s" % (f.name, L.header))

    def unroll_loop(self, f, L, prev, st):
        exits, rets = [], []
        cur = [(prev, st)]
        n = 0
        while cur:
            nxt = []
            for p, s in cur:
                b, e, r = self.region(f, L, [(L.header, 0, p, s)])
                exits += e
                rets += r
                nxt += [(q, t) for _, q, t in b]
            cur = nxt
            n += 1
            if n > self.unroll:
                raise Undecided("unroll limit in %s" % f.name)
        return exits, rets

    def do_phis(self, f, blk, prev, st):
        new = {}
        for i in f.blocks[blk].ins:
            if i.op != "phi":
                break
            for v, b in i.x["inc"]:
                if b == prev:
                    new[i.res] = self.val(v, st)
                    break
            else:
                raise IRUnsupported("phi edge")
        st.env.update(new)

    def branch(self, st, c, f, blk, loop, succ):
        """fork on a symbolic condition; returns list of (target, prev, state)"""
        if c.op == "T":
            return [(succ[0], blk, st)]
        if c.op == "F":
            return [(succ[1], blk, st)]
        s2 = st.fork()
        st.assume(c)
        s2.assume(T.bnot(c))
        out = []
        a, b = self.feas(st), self.feas(s2)
        if a and b and loop is not None:
            # a genuinely symbolic loop exit: needs an invariant
            L = loop
            while L is not None:
                if (succ[0] in L.blocks) != (succ[1] in L.blocks):
                    if not self.allow_sym_exit(f, L, st) and not self.dead_end(f, succ[0] if succ[0] not in L.blocks else succ[1]):
                        raise SymbolicExit(L)
                L = L.parent
        if a:
            out.append((succ[0], blk, st))
        if b:
            out.append((succ[1], blk, s2))
        return out

    def dead_end(self, f, b):
        blk = f.blocks[b]
        return blk.ins[-1].op == "unreachable"

    def allow_sym_exit(self, f, L, st):
        if self.sym_unroll:
            k = ("symu", f.name, L.header)
            st.ghost[k] = st.ghost.get(k, 0) + 1
            return st.ghost[k] <= self.sym_unroll
        return False

    def exec_block(self, f, blk, idx, prev, st, loop):
        b = f.blocks[blk]
        ins = b.ins
        n = len(ins)
        i = idx
        while i < n:
            I = ins[i]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Undecided("step limit")
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise Undecided("deadline")
            op = I.op
            if op == "phi":
                i += 1
                continue
            if op == "br":
                if not I.a:
                    return ("succ", [(I.x["succ"][0], blk, st)])
                c = self.val(I.a[0], st)
                return ("succ", self.branch(st, c, f, blk, loop, I.x["succ"]))
            if op == "switch":
                v = self.val(I.a[0], st)
                out = []
                rest = st
                for c, tgt in I.x["cases"]:
                    cv = self.val(c, st)
                    e = T.cmp("eq", v, cv) if isinstance(v, E) else T.beq(v, cv)
                    if e.op == "T":
                        out.append((tgt, blk, rest))
                        rest = None
                        break
                    if e.op == "F":
                        continue
                    s2 = rest.fork()
                    s2.assume(e)
                    if self.feas(s2):
                        out.append((tgt, blk, s2))
                    rest = rest.fork()
                    rest.assume(T.bnot(e))
                if rest is not None and self.feas(rest):
                    out.append((I.x["succ"][0], blk, rest))
                return ("succ", out)
            if op == "ret":
                return ("ret", self.val(I.a[0], st) if I.a else None)
            if op == "unreachable":
                raise Stop()
            if op in ("call", "invoke"):
                outs = self.call(f, I, st)
                if op == "invoke":
                    return ("succ", [(I.x["succ"][0], blk, self.setres(s, I, v)) for s, v in outs])
                if len(outs) == 1 and outs[0][0] is st:
                    if I.res:
                        st.env[I.res] = outs[0][1]
                    i += 1
                    continue
                return ("cont", [(blk, i + 1, prev, self.setres(s, I, v)) for s, v in outs])
            if op == "select":
                c = self.val(I.a[0], st)
                a, bb = self.val(I.a[1], st), self.val(I.a[2], st)
                r = self.select(c, a, bb, I.ty)
                if r is None:
                    s2 = st.fork()
                    st.assume(c); s2.assume(T.bnot(c))
                    out = []
                    if self.feas(st):
                        st.env[I.res] = a
                        out.append((blk, i + 1, prev, st))
                    if self.feas(s2):
                        s2.env[I.res] = bb
                        out.append((blk, i + 1, prev, s2))
                    return ("cont", out)
                st.env[I.res] = r
                i += 1
                continue
            self.simple(I, st, f)
            i += 1
        raise IRUnsupported("fallthrough")

    def setres(self, s, I, v):
        if I.res:
            s.env[I.res] = v
        return s

    curI = None

    def simple(self, I, st, f):
        op = I.op
        self.curI = I
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            st.env[I.res] = self.binop(op, self.val(I.a[0], st), self.val(I.a[1], st), I.ty, I.x["fl"], st, I)
        elif op == "icmp":
            st.env[I.res] = self.icmp(I.x["pred"], self.val(I.a[0], st), self.val(I.a[1], st), I.ty, st)
        elif op == "fcmp":
            st.env[I.res] = self.fcmp(I.x["pred"], self.val(I.a[0], st), self.val(I.a[1], st), I.ty)
        elif op == "fneg":
            v = self.val(I.a[0], st)
            st.env[I.res] = self.fpop("fneg", [v], I.a[0].ty)
        elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp",
                    "uitofp", "fpext", "fptrunc", "addrspacecast"):
            st.env[I.res] = self.cast(op, self.val(I.a[0], st), I.a[0].ty, I.ty, st, I.x.get("fl", ()))
        elif op == "freeze":
            st.env[I.res] = self.val(I.a[0], st)
        elif op == "alloca":
            n = 1
            if I.a:
                c = self.val(I.a[0], st).const
                if c is None:
                    raise Undecided("alloca of symbolic size")
                n = c
            st.env[I.res] = self.new_obj(st, "loc", size=n * self.L.alloc(I.ty), meta={"align": 16})
        elif op == "load":
            p = self.val(I.a[0], st)
            st.env[I.res] = self.load_typed(st, p, I.ty)
        elif op == "store":
            v = self.val(I.a[0], st)
            p = self.val(I.a[1], st)
            self.store_typed(st, p, v, I.ty)
        elif op == "getelementptr":
            st.env[I.res] = self.gep(I.x["bt"], self.val(I.a[0], st), [self.val(x, st) for x in I.a[1:]], st)
        elif op == "extractelement":
            v = self.val(I.a[0], st)
            k = self.val(I.a[1], st).const
            if k is None:
                raise Undecided("symbolic extractelement")
            st.env[I.res] = v[k]
        elif op == "insertelement":
            v = Vec(self.val(I.a[0], st))
            k = self.val(I.a[2], st).const
            if k is None:
                raise Undecided("symbolic insertelement")
            v[k] = self.val(I.a[1], st)
            st.env[I.res] = v
        elif op == "shufflevector":
            a, b = self.val(I.a[0], st), self.val(I.a[1], st)
            m = I.a[2]
            n = I.a[0].ty.n
            idx = self.mask(m, st)
            out = Vec()
            for k in idx:
                if k is None:
                    out.append(self.fresh(I.ty.el, "poison"))
                else:
                    out.append(a[k] if k < n else b[k - n])
            st.env[I.res] = out
        elif op == "extractvalue":
            v = self.val(I.a[0], st)
            for k in I.x["idx"]:
                v = v[k]
            st.env[I.res] = v
        elif op == "insertvalue":
            st.env[I.res] = self.insv(self.val(I.a[0], st), self.val(I.a[1], st), I.x["idx"])
        elif op == "fence":
            pass
        elif op == "atomicrmw":
            p = self.val(I.a[0], st)
            v = self.val(I.a[1], st)
            k = I.x["k"]
            ob = self.obj_of(p, st)
            if hasattr(ob.handler, "rmw"):
                st.env[I.res] = ob.handler.rmw(self, st, p, k, v, I.ty)
                return
            old = self.load_typed(st, p, I.ty)
            nv = {"add": lambda: T.add(old, v, True), "sub": lambda: T.sub(old, v, True), "xchg": lambda: v,
                  "and": lambda: T.bitop("and", old, v), "or": lambda: T.bitop("or", old, v)}[k]()
            self.store_typed(st, p, nv, I.ty)
            st.env[I.res] = old
        else:
            raise IRUnsupported("instruction " + I.text)

    def insv(self, v, x, idx):
        v = Agg(v) if not isinstance(v, Vec) else Vec(v)
        v[idx[0]] = x if len(idx) == 1 else self.insv(v[idx[0]], x, idx[1:])
        return v

    def mask(self, m, st):
        if m.k == "zero":
            return [0] * m.ty.n
        if m.k == "undef":
            return [None] * m.ty.n
        return [None if x.k == "undef" else x.v for x in m.v]

    def fcmp(self, pred, a, b, ty):
        if isinstance(a, Vec):
            return Vec(self.fcmp(pred, x, y, ty.el) for x, y in zip(a, b))
        if a.const is not None and b.const is not None:
            x, y = self.unpackf(a.uconst, a.w), self.unpackf(b.uconst, b.w)
            nan = x != x or y != y
            base = {"eq": x == y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y, "ne": x != y}
            if pred == "ord":
                return T.bconst(not nan)
            if pred == "uno":
                return T.bconst(nan)
            return T.bconst((base[pred[1:]] and not nan) or (pred[0] == "u" and nan))
        return B("ufb", ("fcmp_" + pred, a, b))

    # ------------------------------------------------------------ calls
    def call(self, f, I, st):
        c = I.x["callee"]
        if c.k == "asm":
            from . import asm
            return asm.call_asm(self, st, I, c.v)
        if c.k == "global":
            name = c.v
        else:
            v = self.val(c, st)
            if not isinstance(v, FnPtr):
                raise IRUnsupported("indirect call to %r" % (v,))
            name = v.name
        if name.startswith("@llvm."):
            if isinstance(self.hooks, dict) and getattr(self.hooks, "pats", None):
                h = self.hooks.get(name[1:])
                if h is not None:
                    return h(self, st, [self.val(a, st) for a in I.a], I)
            from . import intrin
            return intrin.call(self, st, I, name)
        nm = name[1:].strip('"')
        h = self.hooks.get(nm)
        if h is None:
            for pat, hh in self.hooks.items():
                if (pat.endswith("*") and nm.startswith(pat[:-1])) or (pat.startswith("*") and pat[1:] in nm):
                    h = hh
                    break
        if h is None:
            h = getattr(self, "fn_" + nm, None)
            if h is not None:
                return h(st, I, [self.val(a, st) for a in I.a])
        if h is not None:
            return h(self, st, [self.val(a, st) for a in I.a], I)
        if name in self.m.funcs:
            if len(self.fstack) > 60:
                raise IRUnsupported("call depth")
            env = st.env
            outs = self.run(name, [self.val(a, st) for a in I.a], st)
            return outs
        if nm.startswith("_Znwm") or nm.startswith("_Znam") or nm == "malloc" or nm.startswith("_Znwj") or nm.startswith("_Znaj"):
            a = self.val(I.a[0], st)
            p = self.new_obj(st, "heap", size=a if a.const is None else a.const, meta={"align": 16})
            return [(st, p)]
        if nm.startswith("_ZdlPv") or nm.startswith("_ZdaPv") or nm == "free":
            return [(st, None)]
        raise IRUnsupported("call to undefined function " + nm)

    def cstr(self, p, st):
        """constant string operand"""
        if isinstance(p, Ptr) and p.obj.startswith("g:"):
            g = self.m.globals.get(p.obj[2:])
            if g and g[1] is not None and g[1].k == "str":
                return g[1].v.split(b"\0")[0].decode("latin1")
        return "?"

    def fn___v_assert(self, st, I, a):
        c = a[0]
        if isinstance(c, E):
            c = T.bnot(T.cmp("eq", c, T.C(c.w, 0)))
        ok = self.prove(st, c, self.cstr(a[1], st), I.text[-120:])
        if ok and self.mode == "int":
            st.assume(c)
        return [(st, None)]

    def fn___v_assume(self, st, I, a):
        c = a[0]
        if isinstance(c, E):
            c = T.bnot(T.cmp("eq", c, T.C(c.w, 0)))
        st.assume(c)
        if c.op == "F" or (self.mode == "int" and not self.feas(st)):
            raise Stop()
        return [(st, None)]

    def fn___v_cover(self, st, I, a):
        if self.mode == "bv" and not self.feas(st):
            raise Stop()
        st.trace.append("cover:" + self.cstr(a[0], st))
        self.reached.add("cover:" + self.cstr(a[0], st))
        return [(st, None)]

    def fn___v_nondet(self, st, I, a):
        return [(st, T.fresh("nd_" + self.cstr(a[0], st) if a else "nd", 32))]

    def fn___assert_fail(self, st, I, a):
        ok = not self.feas(st)
        if not ok:
            self.prove(st, T.FALSE, "assert(%s)" % self.cstr(a[0], st), "library assertion reachable")
        raise Stop()

    fn___assert = fn___assert_fail

    # function-local statics: the value is the one the initialiser computes
    def fn___cxa_guard_acquire(self, st, I, a):
        return [(st, T.C(32, 1))]

    def fn___cxa_guard_release(self, st, I, a):
        return [(st, None)]

    def fn_sysconf(self, st, I, a):
        return [(st, T.fresh("sysconf", I.ty.n, 1, 1 << 16))]      # assumption: 1..65536 online processors

    def fn_abort(self, st, I, a):
        if self.feas(st):
            self.prove(st, T.FALSE, "abort() unreachable", "")
        raise Stop()

    def fn___cxa_pure_virtual(self, st, I, a):
        return self.fn_abort(st, I, a)
