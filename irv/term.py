"""Hash-consed terms.

E  : integer term of width w, kept as a polynomial (monomial -> coefficient) over
     atoms.  It denotes sum(coef*prod(atoms)) mod 2^w.  E.exact means that, on
     the current path, the *signed* value equals that sum over the integers (no
     wrap-around): true for nsw/nuw-free-of-overflow index arithmetic.
B  : boolean term.
Atom: an opaque w-bit quantity: a variable or the application of a non-ring
     operation to terms.
"""

_atoms = {}
_by_id = []


class Atom:
    __slots__ = ("id", "op", "args", "w", "name", "lo", "hi", "meta")

    def __repr__(self):
        return self.name or "%s(%s)" % (self.op, ",".join(map(str, self.args)))


gen = [0]


def reset():
    gen[0] += 1
    _atoms.clear()
    _by_id.clear()


def _k(x):
    return x.key if isinstance(x, (E, B)) else x


def atom(op, args, w, name=None, lo=None, hi=None):
    key = (op, tuple(_k(a) for a in args), w, name)
    a = _atoms.get(key)
    if a is None:
        a = Atom()
        a.id, a.op, a.args, a.w, a.name = len(_by_id), op, tuple(args), w, name
        a.lo, a.hi, a.meta = lo, hi, None
        _atoms[key] = a
        _by_id.append(a)
    return a


def A(i):
    return _by_id[i]


def norm(c, w):
    c &= (1 << w) - 1
    return c - (1 << w) if c >> (w - 1) else c


class E:
    __slots__ = ("w", "t", "key", "exact", "_h")

    def __init__(self, w, t, exact=False):
        self.w = w
        if exact:
            self.t = {m: c for m, c in t.items() if c}
            items = []
            for m, c in self.t.items():
                c = norm(c, w)
                if c:
                    items.append((m, c))
        else:
            self.t = {}
            for m, c in t.items():
                c = norm(c, w)
                if c:
                    self.t[m] = c
            items = self.t.items()
        self.exact = exact
        self.key = (w, tuple(sorted(items)))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, E) and self.key == o.key

    @property
    def const(self):
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    @property
    def uconst(self):
        c = self.const
        return None if c is None else c & ((1 << self.w) - 1)

    @property
    def single(self):
        """the atom, if the term is exactly one atom"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1:
                return A(m[0])
        return None

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items()):
            s = "*".join(map(lambda i: repr(A(i)), m))
            out.append(("%d*%s" % (c, s) if c != 1 else s) if m else str(c))
        return "(" + "+".join(out) + ")" if len(out) > 1 else out[0]


def C(w, v):
    return E(w, {(): norm(v, w)} if norm(v, w) else {}, True)


def of_atom(a, exact=True):
    return E(a.w, {(a.id,): 1}, exact)


def var(name, w, lo=None, hi=None):
    return of_atom(atom("var", (), w, name, lo, hi))


_fresh = [0]


def fresh(prefix, w, lo=None, hi=None):
    _fresh[0] += 1
    return var("%s!%d" % (prefix, _fresh[0]), w, lo, hi)


def fresh_name(prefix):
    _fresh[0] += 1
    return "%s!%d" % (prefix, _fresh[0])


def add(a, b, exact=False):
    t = dict(a.t)
    for m, c in b.t.items():
        t[m] = t.get(m, 0) + c
    return E(a.w, t, exact and a.exact and b.exact)


def scale(a, k, exact=False):
    return E(a.w, {m: c * k for m, c in a.t.items()}, exact and a.exact)


def sub(a, b, exact=False):
    return add(a, scale(b, -1, exact), exact)


def mul(a, b, exact=False):
    if len(a.t) * len(b.t) > 4000:
        return app("mulop", (a, b), a.w)
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = tuple(sorted(m + n)) if m and n else (m or n)
            t[k] = t.get(k, 0) + c * d
    return E(a.w, t, exact and a.exact and b.exact)


def app(op, args, w, lo=None, hi=None):
    return of_atom(atom(op, args, w, None, lo, hi))


# ------------------------------------------------------------------ booleans
class B:
    __slots__ = ("op", "args", "key")

    def __init__(self, op, args=()):
        self.op, self.args = op, tuple(args)
        self.key = (op, tuple(_k(a) for a in self.args))

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, B) and self.key == o.key

    def __repr__(self):
        if self.op in "TF":
            return self.op
        if self.op == "cmp":
            return "(%r %s %r)" % (self.args[1], self.args[0], self.args[2])
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


TRUE = B("T")
FALSE = B("F")


def bconst(x):
    return TRUE if x else FALSE


def bvar(name):
    return B("var", (name,))


def bnot(b):
    if b.op == "T":
        return FALSE
    if b.op == "F":
        return TRUE
    if b.op == "not":
        return b.args[0]
    if b.op == "cmp":
        p, x, y = b.args
        if p == "slt":
            return B("cmp", ("sle", y, x))
        if p == "sle":
            return B("cmp", ("slt", y, x))
        if p == "ult":
            return B("cmp", ("ule", y, x))
        if p == "ule":
            return B("cmp", ("ult", y, x))
    return B("not", (b,))


def band(*bs):
    out = []
    for b in bs:
        if b.op == "F":
            return FALSE
        if b.op == "T":
            continue
        if b.op == "and":
            for c in b.args:
                if c not in out:
                    out.append(c)
        elif b not in out:
            out.append(b)
    for b in out:
        if bnot(b) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return B("and", out)


def bor(*bs):
    out = []
    for b in bs:
        if b.op == "T":
            return TRUE
        if b.op == "F":
            continue
        if b.op == "or":
            for c in b.args:
                if c not in out:
                    out.append(c)
        elif b not in out:
            out.append(b)
    for b in out:
        if bnot(b) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return B("or", out)


def bimp(a, b):
    return bor(bnot(a), b)


def beq(a, b):
    if a == b:
        return TRUE
    if a.op == "T":
        return b
    if b.op == "T":
        return a
    if a.op == "F":
        return bnot(b)
    if b.op == "F":
        return bnot(a)
    return B("iff", (a, b))


def bite(c, a, b):
    if c.op == "T":
        return a
    if c.op == "F":
        return b
    if a == b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def arange(a):
    """(lo, hi) signed bounds of an atom, always valid"""
    w = a.w
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if a.lo is not None:
        lo = a.lo
    if a.hi is not None:
        hi = a.hi
    return lo, hi


def erange(e):
    """signed bounds of an exact term from atom ranges"""
    w = e.w
    L = -(1 << (w - 1)); H = (1 << (w - 1)) - 1
    lo = hi = 0
    for m, c in e.t.items():
        l, h = 1, 1
        for i in m:
            al, ah = arange(A(i))
            cs = (l * al, l * ah, h * al, h * ah)
            l, h = min(cs), max(cs)
        l, h = (c * l, c * h) if c >= 0 else (c * h, c * l)
        lo += l; hi += h
    if e.exact:
        return max(lo, L), min(hi, H)
    if lo >= L and hi <= H:
        return lo, hi
    return L, H


def tighten(e):
    """if the atom ranges already exclude wrap-around, the term is exact"""
    if e.exact:
        return e
    w = e.w
    lo = hi = 0
    for m, c in e.t.items():
        l, h = 1, 1
        for i in m:
            al, ah = arange(A(i))
            cs = (l * al, l * ah, h * al, h * ah)
            l, h = min(cs), max(cs)
        l, h = (c * l, c * h) if c >= 0 else (c * h, c * l)
        lo += l; hi += h
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return E(w, e.t, True)
    return e


def cmp(pred, a, b):
    if pred in ("sgt", "sge", "ugt", "uge"):
        return cmp({"sgt": "slt", "sge": "sle", "ugt": "ult", "uge": "ule"}[pred], b, a)
    if pred == "ne":
        return bnot(cmp("eq", a, b))
    ca, cb = a.const, b.const
    if ca is not None and cb is not None:
        if pred in ("ult", "ule"):
            ca, cb = a.uconst, b.uconst
        return bconst({"eq": ca == cb, "slt": ca < cb, "sle": ca <= cb, "ult": ca < cb, "ule": ca <= cb}[pred])
    if a == b:
        return bconst(pred in ("eq", "sle", "ule"))
    a, b = tighten(a), tighten(b)
    if a.exact and b.exact:
        d = sub(a, b, True)
        c = d.const
        if c is not None:
            if pred == "eq":
                return bconst(c == 0)
            if pred == "slt":
                return bconst(c < 0)
            if pred == "sle":
                return bconst(c <= 0)
        al, ah = erange(a)
        bl, bh = erange(b)
        if pred == "eq" and (ah < bl or bh < al):
            return FALSE
        if pred == "slt":
            if ah < bl:
                return TRUE
            if al >= bh:
                return FALSE
        if pred == "sle":
            if ah <= bl:
                return TRUE
            if al > bh:
                return FALSE
        if pred in ("ult", "ule"):
            if al >= 0 and bl >= 0:
                return cmp("s" + pred[1:], a, b)
    elif pred == "eq":
        c = sub(a, b).const
        if c is not None:
            return bconst(c == 0)
    # canonical orientation for eq
    if pred == "eq" and a.key > b.key:
        a, b = b, a
    return B("cmp", (pred, a, b))


# ------------------------------------------------------------------ bit operations
def ite(c, a, b):
    if c.op == "T":
        return a
    if c.op == "F":
        return b
    if a == b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    al, ah = erange(a) if a.exact else (None, None)
    lo = hi = None
    if a.exact and b.exact:
        bl, bh = erange(b)
        lo, hi = min(al, bl), max(ah, bh)
    return app("ite", (c, a, b), a.w, lo, hi)


def b2i(b, w, val=1):
    return ite(b, C(w, val), C(w, 0))


def trunc(e, w):
    if e.w == w:
        return e
    t = {}
    for m, c in e.t.items():
        ms = [E(w, {(): c})]
        r = C(w, c)
        for i in m:
            r = mul(r, trunc_atom(A(i), w))
        for k, v in r.t.items():
            t[k] = t.get(k, 0) + v
    r = E(w, t)
    if e.exact:
        lo, hi = erange(e)
        H = 1 << (w - 1)
        if lo >= -H and hi < H and len(r.t) == len(e.t) and \
                all(-H <= c < H and all(arange(A(i))[0] >= -H and arange(A(i))[1] < H for i in m)
                    for m, c in e.t.items()):
            return E(w, r.t, True)
    return r


def trunc_atom(a, w):
    if a.op in ("sext", "zext"):
        x = a.args[0]
        if x.w == w:
            return x
        if x.w > w:
            return trunc(x, w)
        return sext(x, w) if a.op == "sext" else zext(x, w)
    if a.op == "concat":
        return extract(of_atom(a), 0, w)
    if a.op == "ite":
        return ite(a.args[0], trunc(a.args[1], w), trunc(a.args[2], w))
    if a.op == "extract":
        return extract(a.args[0], a.args[1], w)
    if a.op in ("and", "or", "xor"):
        return bitop(a.op, trunc(a.args[0], w), trunc(a.args[1], w))
    if a.op == "trunc":
        return app("trunc", (a.args[0],), w)
    return app("trunc", (of_atom(a),), w, *(trunc_rng(a, w)))


def trunc_rng(a, w):
    lo, hi = arange(a)
    if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
        return lo, hi
    return None, None


def sext(e, w):
    if e.w == w:
        return e
    c = e.const
    if c is not None:
        return C(w, c)
    e = tighten(e)
    if e.exact and not big(e):
        # integer value unchanged: push through the polynomial
        t = {}
        for m, c in e.t.items():
            r = C(w, c)
            for i in m:
                r = mul(r, sext_atom(A(i), w))
            for k, v in r.t.items():
                t[k] = t.get(k, 0) + v
        return E(w, t, True)
    s = e.single
    if s is not None and s.op in ("sext", "zext", "ite"):
        return sext_atom(s, w)
    return app("sext", (e,), w, -(1 << (e.w - 1)), (1 << (e.w - 1)) - 1)


def big(e):
    return len(e.t) > 200


def sext_atom(a, w):
    if a.op == "sext":
        return sext(a.args[0], w)
    if a.op == "zext":
        return zext(a.args[0], w)
    if a.op == "ite":
        return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    if a.op == "narrow" and a.args[0].w == w:
        return a.args[0]
    lo, hi = arange(a)
    return app("sext", (of_atom(a),), w, lo, hi)


UMAX = {}      # unsigned bound of an operand's entries, where a contract's precondition gives one


def zext(e, w):
    if e.w == w:
        return e
    c = e.uconst
    if c is not None:
        return C(w, c)
    e = tighten(e)
    s = e.single
    if s is not None:
        if s.op == "zext":
            return zext(s.args[0], w)
        if s.op == "ite":
            return ite(s.args[0], zext(s.args[1], w), zext(s.args[2], w))
    if e.exact and erange(e)[0] >= 0:
        return sext(e, w)
    if not e.exact and len(e.t) > 1 and all(len(m) > 1 for m in e.t):
        # a sum of products whose integer value lies in [0, 2^w) although it may exceed the signed range
        lo = hi = 0
        for m, c in e.t.items():
            l, h = 1, 1
            for i in m:
                al, ah = arange(A(i))
                cs = (l * al, l * ah, h * al, h * ah)
                l, h = min(cs), max(cs)
            l, h = (c * l, c * h) if c >= 0 else (c * h, c * l)
            lo += l; hi += h
        if lo >= 0 and hi < 1 << e.w:
            return sext(E(e.w, e.t, True), w)
    return app("zext", (e,), w, 0, min((1 << e.w) - 1, UMAX.get(s.op, 1 << 64)) if s is not None else (1 << e.w) - 1)


def extract(e, lo, w):
    """bits [lo, lo+w)"""
    if lo == 0 and w == e.w:
        return e
    c = e.uconst
    if c is not None:
        return C(w, c >> lo)
    s = e.single
    if s is not None:
        if s.op == "concat":
            off = 0
            out = []
            for p in s.args:
                l, h = max(lo, off), min(lo + w, off + p.w)
                if l < h:
                    out.append(extract(p, l - off, h - l))
                off += p.w
            return concat(out)
        if s.op == "zext":
            x = s.args[0]
            if lo >= x.w:
                return C(w, 0)
            if lo + w <= x.w:
                return extract(x, lo, w)
            return zext(extract(x, lo, x.w - lo), w)
        if s.op == "sext" and lo + w <= s.args[0].w:
            return extract(s.args[0], lo, w)
        if s.op == "extract":
            return extract(s.args[0], s.args[1] + lo, w)
        if s.op == "ite":
            return ite(s.args[0], extract(s.args[1], lo, w), extract(s.args[2], lo, w))
    if lo == 0:
        return trunc(e, w)
    return app("extract", (e, lo), w)


def concat(ps):
    """little-endian list of pieces"""
    out = []
    for p in ps:
        s = p.single
        if s is not None and s.op == "concat":
            out.extend(s.args)
        else:
            out.append(p)
    # merge adjacent constants / adjacent extracts
    mg = [out[0]]
    for p in out[1:]:
        q = mg[-1]
        if q.const is not None and p.const is not None:
            mg[-1] = C(q.w + p.w, q.uconst | (p.uconst << q.w))
            continue
        sq, sp = q.single, p.single
        if sp is not None and sp.op == "extract":
            base, lo = sp.args
            qlo = None
            if sq is not None and sq.op == "extract" and sq.args[0] == base:
                qlo = sq.args[1]
            elif q == extract(base, 0, q.w) and lo == q.w:
                qlo = 0
            if qlo is not None and qlo + q.w == lo:
                mg[-1] = extract(base, qlo, q.w + p.w)
                continue
        mg.append(p)
    if len(mg) == 1:
        return mg[0]
    if len(mg) == 2 and mg[1].const == 0:
        return zext(mg[0], mg[0].w + mg[1].w)
    return app("concat", tuple(mg), sum(p.w for p in mg))


def pieces_of(e):
    s = e.single
    if s is not None and s.op == "concat":
        return [p.w for p in s.args]
    return None


def bitop(op, a, b):
    w = a.w
    ca, cb = a.uconst, b.uconst
    M = (1 << w) - 1
    if ca is not None and cb is not None:
        return C(w, {"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op])
    if ca is not None:
        a, b, ca, cb = b, a, cb, ca
    pw = pieces_of(a) or pieces_of(b)
    if pw:
        qa, qb = pieces_of(a), pieces_of(b)
        # refine
        cuts = set()
        for q in (qa, qb):
            if q:
                o = 0
                for x in q:
                    o += x
                    cuts.add(o)
        o = 0
        out = []
        for c in sorted(cuts):
            out.append(bitop(op, extract(a, o, c - o), extract(b, o, c - o)))
            o = c
        return concat(out)
    if cb is not None:
        if op == "and":
            if cb == 0:
                return C(w, 0)
            if cb == M:
                return a
            if cb & (cb + 1) == 0:
                k = cb.bit_length()
                return zext(trunc(a, k), w)
            nb = (~cb) & M
            if nb & (nb + 1) == 0:
                k = nb.bit_length()  # clear low k bits
                return sub(a, zext(trunc(a, k), w))
        if op == "or":
            if cb == 0:
                return a
            if cb == M:
                return b
        if op == "xor":
            if cb == 0:
                return a
            if cb == M:
                return sub(C(w, -1), a)
    if a == b:
        return {"and": a, "or": a, "xor": C(w, 0)}[op]
    for x, y in ((a, b), (b, a)):
        s = x.single
        if s is not None and s.op == "ite" and s.args[1].const is not None and s.args[2].const is not None:
            return ite(s.args[0], bitop(op, s.args[1], y), bitop(op, s.args[2], y))
    if a.key > b.key:
        a, b = b, a
    return app(op, (a, b), w)


def shl(a, b, exact=False):
    c = b.uconst
    w = a.w
    if c is not None:
        if c >= w:
            return C(w, 0)
        if c and pieces_of(a):
            return concat([C(c, 0), extract(a, 0, w - c)])
        return scale(a, 1 << c, exact)
    return app("shl", (a, b), w)


def lshr(a, b):
    c = b.uconst
    w = a.w
    if c is not None:
        if c == 0:
            return a
        if c >= w:
            return C(w, 0)
        a = tighten(a)
        lo, hi = erange(a) if a.exact else (-1, 0)
        if a.uconst is not None:
            return C(w, a.uconst >> c)
        if lo >= 0:
            return app("lshr", (a, b), w, lo >> c, hi >> c)
        return zext(extract(a, c, w - c), w)
    return app("lshr", (a, b), w)


def ashr(a, b):
    c = b.uconst
    w = a.w
    if c is not None:
        if c == 0:
            return a
        c = min(c, w - 1)
        if a.const is not None:
            return C(w, a.const >> c)
        # ashr(shl(x,c),c) : sign extension of the low bits
        if all(v % (1 << c) == 0 for v in a.t.values()) and not a.exact:
            inner = E(w, {m: v >> c for m, v in a.t.items()})
            return sext(trunc(inner, w - c), w)
        pw = pieces_of(a)
        if pw:
            return sext(extract(a, c, w - c), w)
        a = tighten(a)
        if a.exact:
            lo, hi = erange(a)
            return app("ashr", (a, C(w, c)), w, lo >> c, hi >> c)
        return app("ashr", (a, C(w, c)), w, -(1 << (w - 1 - c)), (1 << (w - 1 - c)) - 1)
    return app("ashr", (a, b), w)


def smin(a, b):
    return ite(cmp("slt", a, b), a, b)


def smax(a, b):
    return ite(cmp("slt", a, b), b, a)


def div(op, a, b):
    w = a.w
    ca, cb = a.const, b.const
    if op in ("udiv", "urem"):
        ua, ub = a.uconst, b.uconst
        if ua is not None and ub:
            return C(w, ua // ub if op == "udiv" else ua % ub)
        if ub == 1:
            return a if op == "udiv" else C(w, 0)
        a, b = tighten(a), tighten(b)
        if a.exact and b.exact and erange(a)[0] >= 0 and erange(b)[0] >= 0:
            return div("s" + op[1:], a, b)
        if ub and ub & (ub - 1) == 0:
            k = ub.bit_length() - 1
            return lshr(a, C(w, k)) if op == "udiv" else bitop("and", a, C(w, ub - 1))
        return app(op, (a, b), w)
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        if (ca < 0) != (cb < 0):
            q = -q
        return C(w, q if op == "sdiv" else ca - q * cb)
    if cb == 1:
        return a if op == "sdiv" else C(w, 0)
    a = tighten(a)
    lo = hi = None
    if a.exact:
        if cb and cb > 0 and all(v % cb == 0 for v in a.t.values()):
            return E(w, {m: v // cb for m, v in a.t.items()}, True) if op == "sdiv" else C(w, 0)
        l, h = erange(a)
        if cb and cb > 0:
            if op == "sdiv":
                lo = -((-l) // cb) if l < 0 else l // cb
                hi = h // cb if h >= 0 else -((-h) // cb)
            else:
                lo = 0 if l >= 0 else -(cb - 1)
                hi = 0 if h <= 0 else min(cb - 1, h)
        elif l >= 0 and b.exact and erange(b)[0] >= 0:
            lo, hi = 0, h
    return app(op, (a, b), w, lo, hi)


def subst(x, mp, memo=None):
    """substitute atoms (id -> E) everywhere in a term"""
    if memo is None:
        memo = {}
    if isinstance(x, E):
        k = ("E", x.key, x.exact)
        if k in memo:
            return memo[k]
        r = C(x.w, 0)
        for m, c in x.t.items():
            p = C(x.w, c)
            for i in m:
                p = mul(p, subst_atom(i, mp, memo), True)
            r = add(r, p, True)
        if not x.exact and r.exact:
            r = E(r.w, r.t, False)
        memo[k] = r
        return r
    if isinstance(x, B):
        k = ("B", x.key)
        if k in memo:
            return memo[k]
        a = [subst(y, mp, memo) if isinstance(y, (E, B)) else y for y in x.args]
        if x.op == "cmp":
            r = cmp(*a)
        elif x.op == "and":
            r = band(*a)
        elif x.op == "or":
            r = bor(*a)
        elif x.op == "not":
            r = bnot(*a)
        else:
            r = B(x.op, a)
        memo[k] = r
        return r
    return x


def subst_atom(i, mp, memo):
    if i in mp:
        return mp[i]
    k = ("a", i)
    if k in memo:
        return memo[k]
    a = A(i)
    if a.op == "var" or not a.args:
        r = of_atom(a)
    else:
        args = [subst(y, mp, memo) if isinstance(y, (E, B)) else y for y in a.args]
        if all(x is y or (isinstance(x, (E, B)) and x == y) for x, y in zip(args, a.args)):
            r = of_atom(a)
        else:
            r = rebuild(a, args)
    memo[k] = r
    return r


def rebuild(a, args):
    op, w = a.op, a.w
    if op == "sext":
        return sext(args[0], w)
    if op == "zext":
        return zext(args[0], w)
    if op == "trunc":
        return trunc(args[0], w)
    if op == "ite":
        return ite(*args)
    if op == "extract":
        return extract(args[0], args[1], w)
    if op == "concat":
        return concat(args)
    if op in ("and", "or", "xor"):
        return bitop(op, *args)
    if op == "shl":
        return shl(*args)
    if op == "lshr":
        return lshr(*args)
    if op == "ashr":
        return ashr(*args)
    if op in ("sdiv", "udiv", "srem", "urem"):
        return div(op, *args)
    return of_atom(atom(op, args, w, a.name, a.lo, a.hi))
