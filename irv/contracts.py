"""Callee contracts used modularly: the call is replaced by the specification function,
lane by lane; the specification calls in the harness map to the same function symbol."""
import re
from . import term as T
from .exec import Vec, Agg
from .ir import IRUnsupported


def lanes32(en, v):
    """32-bit lanes of an int32 scalar or vector value"""
    if isinstance(v, T.E):
        return [v] if v.w == 32 else [T.trunc(v, 32)]
    if isinstance(v, Vec):
        out = []
        for x in v:
            n = x.w // 32
            if x.w % 32:
                raise IRUnsupported("lane width in contract stub")
            out += [T.extract(x, 32 * i, 32) for i in range(n)]
        return out
    raise IRUnsupported("contract stub operand")


def pack(en, ls, ty):
    if ty.k == "int":
        return T.sext(ls[0], ty.n) if ty.n > 32 else ls[0]
    w = en.L.size(ty.el) * 8
    n = w // 32
    return Vec(T.concat(ls[i * n:(i + 1) * n]) if n > 1 else ls[i] for i in range(ty.n))


def binary(sym):
    def h(en, st, a, I):
        x, y = lanes32(en, a[0]), lanes32(en, a[1])
        if len(y) == 1 and len(x) > 1:
            y = y * len(x)
        if len(x) != len(y):
            raise IRUnsupported("contract stub lanes")
        return [(st, pack(en, [T.app("uf:" + sym, (u, v), 32) for u, v in zip(x, y)], I.ty))]
    return h


class Pats(dict):
    """hooks by regular expression on the mangled name"""

    def __init__(self, pats):
        self.pats = [(re.compile(p), h) for p, h in pats]

    def get(self, nm, d=None):
        for p, h in self.pats:
            if p.search(nm):
                return h
        return d

    def items(self):
        return ()


ARITH = [
    (r"^_ZN8gemmlowp33SaturatingRoundingDoublingHighMulI", binary("srdhm")),
    # NEON reaches the same function through the instruction directly (C09 proves the two equal)
    (r"^llvm\.aarch64\.neon\.sqrdmulh\.v4i32$|^llvm\.arm\.neon\.vqrdmulh\.v4i32$", binary("srdhm")),
    (r"^_ZN8gemmlowp19RoundingDivideByPOTI", binary("rdivpot")),
    (r"^_ZL?10spec_srdhmii$", binary("srdhm")),
    (r"^_ZL?12spec_rdivpotli$|^_ZL?12spec_rdivpotxi$", binary("rdivpot")),
]

def lanes(en, v, w):
    if isinstance(v, Agg):
        return [x for y in v for x in lanes(en, y, w)]
    if isinstance(v, T.E):
        if v.w <= w:
            return [v]
        return [T.extract(v, w * i, w) for i in range(v.w // w)]
    if isinstance(v, Vec):
        return [x for y in v for x in lanes(en, y, w)]
    raise IRUnsupported("contract stub operand")


def repack(en, ls, ty, w):
    if ty.k == "int":
        n = ty.n // w
        return T.concat(ls[:n]) if n > 1 else ls[0]
    if ty.k == "vec":
        ew = en.L.size(ty.el) * 8
        n = ew // w
        return Vec(T.concat(ls[i * n:(i + 1) * n]) if n > 1 else ls[i] for i in range(ty.n))
    if ty.k == "struct" and len(ty.fields) == 1:
        return Agg([repack(en, ls, ty.fields[0], w)])
    raise IRUnsupported("contract stub result %s" % ty.k)


PRIM = ["BitAnd", "BitOr", "BitXor", "BitNot", "Add", "Sub", "Neg", "Mul", "ShiftLeft", "ShiftRight", "SelectUsingMask", "MaskIfEqual", "MaskIfNotEqual",
        "MaskIfZero", "MaskIfNonZero", "MaskIfGreaterThan", "MaskIfGreaterThanOrEqual", "MaskIfLessThan", "MaskIfLessThanOrEqual",
        "RoundingHalfSum", "SaturatingAdd", "AddSaturatingIf16Bit", "SaturatingRoundingDoublingHighMul", "RoundingDivideByPOT",
        "SaturatingRoundingMultiplyByPOT", "SaturatingSub"]
PRE = r"^_ZN8gemmlowp(%s)I(?!.*FixedPoint)" % "|".join("%d%s" % (len(n), n) for n in PRIM)
_pre = re.compile(PRE)


def primitive(name):
    """(primitive, lane width, template integer) of a mangled primitive on raw values"""
    m = _pre.search(name)
    rest = name[m.end():]
    k = re.match(r"L[ij](n?)(\d+)E", rest)
    e = None
    if k:
        e = int(k.group(2)) * (-1 if k.group(1) else 1)
        rest = rest[k.end():]
    w = 16 if re.match(r"s|(NS_)?\d+(__)?(simd128_)?[iI]nt16", rest) else 32 if re.match(r"i|Dv|\d+(__)?(simd128_)?[iI]nt32|\d+__m(128|256)", rest) else None
    if w is None:
        raise IRUnsupported("raw type of " + name)
    return re.sub(r"^\d+", "", m.group(1)), w, e


def prim(en, st, a, I):
    n, w, e = primitive(I.x["callee"].v.lstrip("@").strip(chr(34)))
    ls = [lanes(en, x, w) for x in a]
    k = max(len(x) for x in ls)
    ls = [x * k if len(x) == 1 else x for x in ls]
    ls = [[T.trunc(v, w) if v.w > w else v for v in x] for x in ls]
    out = [T.app("uf:%s%s_%d" % (n, "" if e is None else "<%d>" % e, w), t, w) for t in zip(*ls)]
    return [(st, repack(en, out, I.ty, w))]


PRIMS = [(PRE, prim)]
TABLE = {"arith": ARITH, "prims": PRIMS}


def get(name):
    pats = TABLE[name]
    return [p for p, _ in pats], Pats(pats)
