"""Semantics of the LLVM and target intrinsics that occur in the extracted IR."""
from . import term as T
from .ir import IRUnsupported
from .term import E, B
import re


def lanes(f, *vs):
    from .exec import Vec
    if isinstance(vs[0], list):
        return Vec(f(*[v[i] if isinstance(v, list) else v for v in vs]) for i in range(len(vs[0])))
    return f(*vs)


def sat(x, w, signed=True):
    """saturate wide term x (signed value) to w bits"""
    W = x.w
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    x = T.tighten(x)
    return T.trunc(T.ite(T.cmp("slt", x, T.C(W, lo)), T.C(W, lo),
                         T.ite(T.cmp("slt", T.C(W, hi), x), T.C(W, hi), x)), w)


def sadd_sat(a, b):
    w = a.w
    return sat(T.add(T.sext(a, 2 * w), T.sext(b, 2 * w), True), w)


def ssub_sat(a, b):
    w = a.w
    return sat(T.sub(T.sext(a, 2 * w), T.sext(b, 2 * w), True), w)


def uadd_sat(a, b):
    w = a.w
    return sat(T.add(T.zext(a, 2 * w), T.zext(b, 2 * w), True), w, False)


def usub_sat(a, b):
    w = a.w
    return sat(T.sub(T.zext(a, 2 * w), T.zext(b, 2 * w), True), w, False)


def sqrdmulh(a, b):
    # (2*a*b + 2^(w-1)) >> w saturated == (a*b + 2^(w-2)) >> (w-1) saturated
    w = a.w
    W = 2 * w
    p = T.mul(T.sext(a, W), T.sext(b, W), True)
    return sat(T.ashr(T.add(p, T.C(W, 1 << (w - 2)), True), T.C(W, w - 1)), w)


def sqdmulh(a, b):
    w = a.w
    W = 2 * w + 2
    p = T.mul(T.sext(a, W), T.sext(b, W), True)
    return sat(T.ashr(T.scale(p, 2, True), T.C(W, w)), w)


def rshl(a, s, signed=True):
    """rounding shift left by signed amount (negative: rounding right shift)"""
    w = a.w
    W = 2 * w + 2
    ax = T.sext(a, W) if signed else T.zext(a, W)
    # the shift amount is the signed low byte of the lane
    sb = T.sext(T.trunc(s, 8), W)
    c = sb.const
    if c is not None:
        if c >= 0:
            return T.trunc(T.shl(ax, T.C(W, c)), w) if c < w else T.C(w, 0)
        n = -c
        if n > w:
            return T.C(w, 0)
        x = T.add(ax, T.C(W, 1 << (n - 1)), True)
        return T.trunc(T.ashr(x, T.C(W, n)), w)
    r = T.C(w, 0)
    for k in range(-w, w):
        r = T.ite(T.cmp("eq", sb, T.C(W, k)), rshl(a, T.C(s.w, k), signed), r)
    return r


def shl_signed(a, s, signed=True):
    """shift left by signed amount, negative shifts right (truncating)"""
    w = a.w
    W = 2 * w
    ax = T.sext(a, W) if signed else T.zext(a, W)
    sb = T.sext(T.trunc(s, 8), W)
    c = sb.const
    if c is not None:
        if c >= 0:
            return T.trunc(T.shl(ax, T.C(W, c)), w) if c < w else T.C(w, 0)
        return T.trunc(T.ashr(ax, T.C(W, min(-c, W - 1))), w)
    r = T.ite(T.cmp("slt", sb, T.C(W, 0)), T.trunc(T.ashr(ax, T.C(W, w)), w), T.C(w, 0))
    for k in range(-w, w):
        r = T.ite(T.cmp("eq", sb, T.C(W, k)), shl_signed(a, T.C(s.w, k), signed), r)
    return r


def qshl(a, s, signed=True):
    """saturating shift left by signed amount, negative shifts right (truncating)"""
    w = a.w
    W = 2 * w + 1
    ax = T.sext(a, W) if signed else T.zext(a, W)
    sb = T.sext(T.trunc(s, 8), W)
    c = sb.const
    if c is not None:
        if c >= 0:
            c = min(c, w)
            return sat(T.scale(ax, 1 << c, True), w, signed)
        return T.trunc(T.ashr(ax, T.C(W, min(-c, W - 1))), w)
    r = T.ite(T.cmp("slt", sb, T.C(W, 0)), qshl(a, T.C(s.w, -w), signed), qshl(a, T.C(s.w, w), signed))
    for k in range(-w, w):
        r = T.ite(T.cmp("eq", sb, T.C(W, k)), qshl(a, T.C(s.w, k), signed), r)
    return r


def hadd_round(a, b, signed=True):
    w = a.w
    W = w + 2
    ex = T.sext if signed else T.zext
    return T.trunc(T.ashr(T.add(T.add(ex(a, W), ex(b, W), True), T.C(W, 1), True), T.C(W, 1)), w)


def absv(a):
    return T.ite(T.cmp("slt", a, T.C(a.w, 0)), T.sub(T.C(a.w, 0), a), a)


def ctlz(a):
    c = a.uconst
    if c is not None:
        return T.C(a.w, a.w - c.bit_length())
    return T.app("ctlz", (a,), a.w, 0, a.w)


def call(en, st, I, name):
    from .exec import Vec, Agg, Ptr, Undecided, Stop
    n = name[1:]
    if n.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.invariant", "llvm.experimental.noalias",
                     "llvm.prefetch", "llvm.donothing", "llvm.va_", "llvm.stackrestore", "llvm.x86.sse2.mfence")):
        return [(st, None)]
    a = [en.val(x, st) for x in I.a]
    r = None

    def ret(v):
        return [(st, v)]
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
        en.memcpy(st, a[0], a[1], a[2])
        return ret(None)
    if n.startswith("llvm.memset"):
        en.memset(st, a[0], a[1], a[2])
        return ret(None)
    if n.startswith("llvm.expect"):
        return ret(a[0])
    if n.startswith("llvm.trap") or n.startswith("llvm.ubsantrap"):
        if en.feas(st):
            en.prove(st, T.FALSE, "undefined-behaviour trap unreachable", I.text)
        raise Stop()
    if n.startswith("llvm.launder") or n.startswith("llvm.strip.invariant"):
        return ret(a[0])
    if n.startswith("llvm.ptrmask"):
        return ret(en.ptrmask(a[0], a[1]))
    if n.startswith("llvm.stacksave"):
        return ret(Ptr("undef", T.C(en.pb, 0)))
    if n.startswith("llvm.objectsize"):
        return ret(T.C(I.ty.n, -1))
    if n.startswith("llvm.is.constant"):
        return ret(T.FALSE)
    m = re.match(r"llvm\.(smin|smax|umin|umax)\.", n)
    if m:
        o = m.group(1)
        pred = {"smin": "slt", "smax": "sgt", "umin": "ult", "umax": "ugt"}[o]
        return ret(lanes(lambda x, y: T.ite(T.cmp(pred, x, y), x, y), a[0], a[1]))
    if n.startswith("llvm.abs."):
        return ret(lanes(absv, a[0]))
    if n.startswith("llvm.sadd.sat"):
        return ret(lanes(sadd_sat, a[0], a[1]))
    if n.startswith("llvm.ssub.sat"):
        return ret(lanes(ssub_sat, a[0], a[1]))
    if n.startswith("llvm.uadd.sat"):
        return ret(lanes(uadd_sat, a[0], a[1]))
    if n.startswith("llvm.usub.sat"):
        return ret(lanes(usub_sat, a[0], a[1]))
    if n.startswith("llvm.ctlz"):
        return ret(lanes(ctlz, a[0]))
    if n.startswith(("llvm.fshl.", "llvm.fshr.")):
        w = a[0].w
        c = a[2].const
        if c is None:
            raise IRUnsupported(n)
        c %= w
        if n.startswith("llvm.fshr."):
            c = (w - c) % w
        if c == 0:
            return ret(a[0])
        return ret(T.concat([T.extract(a[1], w - c, c), T.extract(a[0], 0, w - c)]))
    m = re.match(r"llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)", n)
    if m:
        sg, o, w = m.group(1), m.group(2), int(m.group(3))
        W = 2 * w
        ex = T.sext if sg == "s" else T.zext
        f = {"add": T.add, "sub": T.sub, "mul": T.mul}[o]
        wide = f(ex(a[0], W), ex(a[1], W), True)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg == "s" else (0, (1 << w) - 1)
        ov = T.bor(T.cmp("slt", wide, T.C(W, lo)), T.cmp("slt", T.C(W, hi), wide))
        if en.mode == "int":
            res = f(a[0], a[1], True)
        else:
            res = f(a[0], a[1])
        return ret(Agg([res, ov]))
    if n.startswith(("llvm.fabs", "llvm.floor", "llvm.ceil", "llvm.round", "llvm.sqrt", "llvm.fma", "llvm.fmuladd",
                     "llvm.minnum", "llvm.maxnum", "llvm.trunc.f", "llvm.rint", "llvm.nearbyint", "llvm.lround",
                     "llvm.ldexp")):
        w = en.L.size(I.ty) * 8
        return ret(T.app("fp:" + n, tuple(a), w))
    m = re.match(r"llvm\.vector\.reduce\.(add|smax|smin|and|or|umax|umin)\.", n)
    if m:
        o = m.group(1)
        acc = a[0][0]
        for x in a[0][1:]:
            if o == "add":
                acc = T.add(acc, x)
            elif o in ("and", "or"):
                acc = (T.band if o == "and" else T.bor)(acc, x) if isinstance(acc, B) else T.bitop(o, acc, x)
            else:
                acc = T.ite(T.cmp({"smax": "sgt", "smin": "slt", "umax": "ugt", "umin": "ult"}[o], acc, x), acc, x)
        return ret(acc)
    # ------------------------------------------------ x86
    if n.startswith("llvm.x86."):
        x = n[len("llvm.x86."):]
        m = re.match(r"(sse2|avx2)\.p(sll|srl|sra)(i?)\.(w|d|q)$", x)
        if m:
            o, imm, t = m.group(2), m.group(3), m.group(4)
            w = {"w": 16, "d": 32, "q": 64}[t]
            if imm:
                c = a[1]
            else:  # shift count: low 64 bits of the vector operand
                lowbits = T.concat(list(a[1])) if True else None
                c = T.extract(lowbits, 0, 64)
            cc = c.uconst

            def f(v):
                if cc is not None:
                    if o == "sll":
                        return T.shl(v, T.C(w, cc)) if cc < w else T.C(w, 0)
                    if o == "srl":
                        return T.lshr(v, T.C(w, cc)) if cc < w else T.C(w, 0)
                    return T.ashr(v, T.C(w, min(cc, w - 1)))
                cw = T.trunc(c, w) if c.w >= w else T.zext(c, w)
                big = T.bnot(T.cmp("ult", c, T.C(c.w, w)))
                if o == "sll":
                    return T.ite(big, T.C(w, 0), T.shl(v, cw))
                if o == "srl":
                    return T.ite(big, T.C(w, 0), T.lshr(v, cw))
                return T.ite(big, T.ashr(v, T.C(w, w - 1)), T.ashr(v, cw))
            return ret(lanes(f, a[0]))
        if x in ("sse2.pmadd.wd", "avx2.pmadd.wd"):
            out = Vec()
            for i in range(0, len(a[0]), 2):
                p = T.mul(T.sext(a[0][i], 32), T.sext(a[1][i], 32))
                q = T.mul(T.sext(a[0][i + 1], 32), T.sext(a[1][i + 1], 32))
                out.append(T.add(p, q))
            return ret(out)
        m = re.match(r"(sse2|sse41|avx2)\.pack(ss|us)(wb|dw)(\.128)?$", x) or re.match(r"(sse2|sse41|avx2)\.pack(ss|us)(wb|dw)", x)
        if m:
            signed = m.group(2) == "ss"
            w = 8 if m.group(3) == "wb" else 16
            k = len(a[0])
            half = 128 // (2 * w)
            out = Vec()
            for b in range(0, k, half):
                for src in (a[0], a[1]):
                    out += [sat(T.sext(v, 2 * v.w), w, signed) for v in src[b:b + half]]
            return ret(out)
        if x in ("ssse3.phadd.d.128", "avx2.phadd.d"):
            k = len(a[0])
            out = Vec()
            for b in range(0, k, 4):
                for src in (a[0], a[1]):
                    out += [T.add(src[b], src[b + 1]), T.add(src[b + 2], src[b + 3])]
            return ret(out)
        if x in ("ssse3.phadd.w.128", "avx2.phadd.w"):
            k = len(a[0])
            out = Vec()
            for b in range(0, k, 8):
                for src in (a[0], a[1]):
                    out += [T.add(src[b + j], src[b + j + 1]) for j in (0, 2, 4, 6)]
            return ret(out)
        if x in ("ssse3.pmul.hr.sw.128", "avx2.pmul.hr.sw"):
            def f(u, v):
                p = T.mul(T.sext(u, 32), T.sext(v, 32), True)
                return T.trunc(T.ashr(T.add(T.ashr(p, T.C(32, 14)), T.C(32, 1), True), T.C(32, 1)), 16)
            return ret(lanes(f, a[0], a[1]))
        if x in ("sse2.pavg.w", "avx2.pavg.w", "sse2.pavg.b", "avx2.pavg.b"):
            return ret(lanes(lambda u, v: hadd_round(u, v, False), a[0], a[1]))
        if x in ("sse2.pmulh.w", "avx2.pmulh.w"):
            return ret(lanes(lambda u, v: T.trunc(T.ashr(T.mul(T.sext(u, 32), T.sext(v, 32), True), T.C(32, 16)), 16), a[0], a[1]))
        if x in ("ssse3.pshuf.b.128", "avx2.pshuf.b"):
            out = Vec()
            for i, c in enumerate(a[1]):
                cc = c.uconst
                if cc is None:
                    raise IRUnsupported("pshufb symbolic")
                out.append(T.C(8, 0) if cc & 0x80 else a[0][(i & ~15) + (cc & 15)])
            return ret(out)
        if x in ("sse41.pblendvb", "avx2.pblendvb"):
            def f(u, v, mm):
                return T.ite(T.cmp("slt", mm, T.C(8, 0)), v, u)
            # masks are whole-lane; per byte
            return ret(lanes(f, a[0], a[1], a[2]))
        if x in ("sse41.blendvps", "avx.blendv.ps.256", "sse41.blendvpd", "avx.blendv.pd.256"):
            return ret(lanes(lambda u, v, mm: T.ite(T.cmp("slt", mm, T.C(mm.w, 0)), v, u), a[0], a[1], a[2]))
        m = re.match(r"(ssse3|avx2)\.psign\.(b|w|d)(\.128)?$", x)
        if m:
            def f(u, v):
                z = T.C(u.w, 0)
                return T.ite(T.cmp("slt", v, z), T.sub(z, u), T.ite(T.cmp("eq", v, z), z, u))
            return ret(lanes(f, a[0], a[1]))
        if x in ("sse2.pmovmskb.128", "avx2.pmovmskb"):
            bits = [T.extract(v, 7, 1) for v in a[0]]
            return ret(T.zext(T.concat(bits), 32) if len(bits) < 32 else T.concat(bits))
        m = re.match(r"sse41\.ptest(z|c|nzc)$|avx\.ptest(z|c|nzc)\.256$", x)
        if m:
            o = m.group(1) or m.group(2)
            u, v = T.concat(list(a[0])), T.concat(list(a[1]))
            z = T.C(u.w, 0)
            if o == "z":
                return ret(T.b2i(T.cmp("eq", T.bitop("and", u, v), z), 32))
            if o == "c":
                nu = T.bitop("xor", u, T.C(u.w, -1))
                return ret(T.b2i(T.cmp("eq", T.bitop("and", nu, v), z), 32))
        raise IRUnsupported(n)
    # ------------------------------------------------ NEON
    m = re.match(r"llvm\.(aarch64|arm)\.neon\.([a-z0-9.]+?)\.(.*)$", n)
    if m:
        arch, o = m.group(1), m.group(2)
        if o in ("sqrdmulh", "vqrdmulh"):
            return ret(lanes(sqrdmulh, a[0], a[1]))
        if o in ("sqdmulh", "vqdmulh"):
            return ret(lanes(sqdmulh, a[0], a[1]))
        if o in ("srshl", "vrshifts"):
            return ret(lanes(rshl, a[0], a[1]))
        if o in ("urshl", "vrshiftu"):
            return ret(lanes(lambda u, v: rshl(u, v, False), a[0], a[1]))
        if o in ("sshl", "vshifts"):
            return ret(lanes(shl_signed, a[0], a[1]))
        if o in ("sqshl", "vqshifts"):
            return ret(lanes(qshl, a[0], a[1]))
        if o == "vbsl":
            return ret(lanes(lambda m_, u, v: T.bitop("or", T.bitop("and", m_, u), T.bitop("and", T.bitop("xor", m_, T.C(m_.w, -1)), v)), a[0], a[1], a[2]))
        if o in ("srhadd", "vrhadds"):
            return ret(lanes(hadd_round, a[0], a[1]))
        if o in ("urhadd", "vrhaddu"):
            return ret(lanes(lambda u, v: hadd_round(u, v, False), a[0], a[1]))
        if o in ("sqadd", "vqadds"):
            return ret(lanes(sadd_sat, a[0], a[1]))
        if o in ("sqsub", "vqsubs"):
            return ret(lanes(ssub_sat, a[0], a[1]))
        if o in ("uqadd", "vqaddu"):
            return ret(lanes(uadd_sat, a[0], a[1]))
        if o in ("sqxtn", "vqmovns"):
            return ret(lanes(lambda u: sat(T.sext(u, 2 * u.w), u.w // 2), a[0]))
        if o in ("sqxtun", "vqmovnsu"):
            return ret(lanes(lambda u: sat(T.sext(u, 2 * u.w), u.w // 2, False), a[0]))
        if o in ("uqxtn", "vqmovnu"):
            return ret(lanes(lambda u: sat(T.zext(u, 2 * u.w), u.w // 2, False), a[0]))
        if o in ("smax", "vmaxs"):
            return ret(lanes(T.smax, a[0], a[1]))
        if o in ("smin", "vmins"):
            return ret(lanes(T.smin, a[0], a[1]))
        if o in ("umax", "vmaxu"):
            return ret(lanes(lambda u, v: T.ite(T.cmp("ult", u, v), v, u), a[0], a[1]))
        if o in ("umin", "vminu"):
            return ret(lanes(lambda u, v: T.ite(T.cmp("ult", u, v), u, v), a[0], a[1]))
        if o in ("saddlp", "vpaddls"):
            w = a[0][0].w
            return ret(Vec(T.add(T.sext(a[0][i], 2 * w), T.sext(a[0][i + 1], 2 * w), True) for i in range(0, len(a[0]), 2)))
        if o in ("uaddlp", "vpaddlu"):
            w = a[0][0].w
            return ret(Vec(T.add(T.zext(a[0][i], 2 * w), T.zext(a[0][i + 1], 2 * w), True) for i in range(0, len(a[0]), 2)))
        if o == "vpadals" or o == "vpadalu":
            w = a[1][0].w
            ex = T.sext if o == "vpadals" else T.zext
            return ret(Vec(T.add(a[0][i // 2], T.add(ex(a[1][i], 2 * w), ex(a[1][i + 1], 2 * w), True))
                           for i in range(0, len(a[1]), 2)))
        if o in ("addp", "vpadd"):
            k = len(a[0])
            z = list(a[0]) + list(a[1])
            return ret(Vec(T.add(z[i], z[i + 1]) for i in range(0, 2 * k, 2)))
        if o in ("smaxv", "sminv", "umaxv", "uminv"):
            acc = a[0][0]
            for x in a[0][1:]:
                acc = T.ite(T.cmp({"smaxv": "sgt", "sminv": "slt", "umaxv": "ugt", "uminv": "ult"}[o], acc, x), acc, x)
            return ret(acc)
        if o in ("vpmins", "vpmaxs", "vpminu", "vpmaxu"):
            z = list(a[0]) + list(a[1])
            pr = {"vpmins": "slt", "vpmaxs": "sgt", "vpminu": "ult", "vpmaxu": "ugt"}[o]
            return ret(Vec(T.ite(T.cmp(pr, z[i], z[i + 1]), z[i], z[i + 1]) for i in range(0, len(z), 2)))
        if o in ("smull", "vmulls"):
            w = a[0][0].w
            return ret(lanes(lambda u, v: T.mul(T.sext(u, 2 * w), T.sext(v, 2 * w), True), a[0], a[1]))
        if o in ("umull", "vmullu"):
            w = a[0][0].w
            return ret(lanes(lambda u, v: T.mul(T.zext(u, 2 * w), T.zext(v, 2 * w), True), a[0], a[1]))
        if o in ("vst1", "vld1", "vld1x2", "vst1x2", "st1x2", "ld1x2", "ld2", "ld3", "ld4", "st2", "st3", "st4",
                 "vld2", "vld3", "vld4", "vst2", "vst3", "vst4", "vst4lane", "st4lane", "vst2lane", "vst3lane", "st2lane", "st3lane"):
            return neon_mem(en, st, I, o, a)
        raise IRUnsupported(n)
    raise IRUnsupported(n)


def neon_mem(en, st, I, o, a):
    from .exec import Vec, Agg, Ptr
    from . import ir
    arm = o.startswith("v")
    k = o.lstrip("v")

    def elty(e):
        return ir.ity(e.w)
    if k == "ld1":
        p = a[0]
        return [(st, en.load_typed(st, p, I.ty))]
    if k == "st1":
        p, v = a[0], a[1]
        en.store_typed(st, p, v, ir.Ty("vec", len(v), elty(v[0])))
        return [(st, None)]
    if k in ("ld2", "ld3", "ld4"):
        nn = int(k[2])
        vt = I.ty.fields[0]
        p = a[0]
        fl = en.load_typed(st, p, ir.Ty("vec", vt.n * nn, vt.el))
        return [(st, Agg([Vec(fl[i * nn + j] for i in range(vt.n)) for j in range(nn)]))]
    if k in ("st2", "st3", "st4"):
        nn = int(k[2])
        if arm:
            p, vs = a[0], a[1:1 + nn]
        else:
            vs, p = a[:nn], a[nn]
        out = Vec(vs[j][i] for i in range(len(vs[0])) for j in range(nn))
        en.store_typed(st, p, out, ir.Ty("vec", len(out), elty(out[0])))
        return [(st, None)]
    if k in ("st2lane", "st3lane", "st4lane"):
        nn = int(k[2])
        if arm:
            p, vs, ln = a[0], a[1:1 + nn], a[1 + nn].const
        else:
            vs, ln, p = a[:nn], a[nn].const, a[nn + 1]
        out = Vec(v[ln] for v in vs)
        en.store_typed(st, p, out, ir.Ty("vec", len(out), elty(out[0])))
        return [(st, None)]
    raise IRUnsupported("neon memory " + o)
