"""Parser for the textual LLVM 18 IR produced from /repo on every run.

Only the subset clang emits for gemmlowp is supported; anything else raises
IRUnsupported, which a check reports as 'undecided', never as a violation.
"""
import re


class IRUnsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "fields", "packed", "name")

    def __init__(self, k, n=0, el=None, fields=None, packed=False, name=None):
        self.k, self.n, self.el, self.fields, self.packed, self.name = k, n, el, fields, packed, name

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k in ("vec", "arr"):
            return "%s%dx%r%s" % ("<[" [self.k == "arr"], self.n, self.el, ">]"[self.k == "arr"])
        if self.k == "struct":
            return "{%s}" % ",".join(map(repr, self.fields or []))
        return self.k


INT = {}


def ity(n):
    if n not in INT:
        INT[n] = Ty("int", n)
    return INT[n]


PTR = Ty("ptr")
VOID = Ty("void")
FLOAT = Ty("float")
DOUBLE = Ty("double")
HALF = Ty("half")
LABEL = Ty("label")
META = Ty("metadata")
FN = Ty("func")

PTRSIZE = 8


class Layout:
    def __init__(self, ptrsize=8):
        self.ptr = ptrsize

    def size(self, t):
        """store size in bytes, alloc size rounded to alignment for aggregates"""
        k = t.k
        if k == "int":
            return max(1, (t.n + 7) // 8)
        if k == "ptr":
            return self.ptr
        if k == "float":
            return 4
        if k == "double":
            return 8
        if k == "half":
            return 2
        if k == "vec":
            if t.el.k == "int" and t.el.n < 8:
                return max(1, (t.n * t.el.n + 7) // 8)
            return t.n * self.size(t.el)
        if k == "arr":
            return t.n * self.alloc(t.el)
        if k == "struct":
            off, al = 0, 1
            for f in t.fields:
                a = 1 if t.packed else self.align(f)
                off = (off + a - 1) // a * a + self.alloc(f)
                al = max(al, a)
            return (off + al - 1) // al * al
        raise IRUnsupported("size of %r" % t)

    def alloc(self, t):
        s, a = self.size(t), self.align(t)
        return (s + a - 1) // a * a

    def align(self, t):
        k = t.k
        if k == "int":
            s = self.size(t)
            a = 1
            while a < s:
                a *= 2
            return min(a, 16)
        if k in ("ptr", "float", "double", "half"):
            return self.size(t)
        if k == "vec":
            s = self.size(t)
            a = 1
            while a < s:
                a *= 2
            return a
        if k == "arr":
            return self.align(t.el)
        if k == "struct":
            if t.packed:
                return 1
            return max([self.align(f) for f in t.fields] or [1])
        raise IRUnsupported("align of %r" % t)

    def field_off(self, t, i):
        off = 0
        for j, f in enumerate(t.fields):
            a = 1 if t.packed else self.align(f)
            off = (off + a - 1) // a * a
            if j == i:
                return off
            off += self.alloc(f)
        raise IRUnsupported("field")


TOK = re.compile(
    r'\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|;.*|[%@](?:"(?:[^"\\]|\\.)*"|[-\w$.]+)|![\w.\-]*|#\d+|'
    r'0x[KLMHR]?[0-9A-Fa-f]+|-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|[\w.$]+|\.\.\.|<\{|\}>|[\[\]{}()<>=,*:|^$])')


def tokenize(s):
    out, p = [], 0
    while p < len(s):
        m = TOK.match(s, p)
        if not m:
            if s[p:].strip() == "":
                break
            raise IRUnsupported("tokenize: " + s[p:p + 60])
        t = m.group(1)
        if t.startswith(";"):
            break
        out.append(t)
        p = m.end()
    return out


# constant / operand representations
class Op:
    """operand: k in local, global, int, fp, null, undef, zero, agg, gep, cexpr, str, asm, meta"""
    __slots__ = ("k", "v", "ty", "x")

    def __init__(self, k, v, ty, x=None):
        self.k, self.v, self.ty, self.x = k, v, ty, x

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


class Instr:
    __slots__ = ("op", "res", "ty", "a", "x", "text")

    def __init__(self, op, res=None, ty=None, a=None, x=None, text=""):
        self.op, self.res, self.ty, self.a, self.x, self.text = op, res, ty, a or [], x or {}, text

    def __repr__(self):
        return self.text


class Block:
    __slots__ = ("name", "ins", "succ", "pred")

    def __init__(self, name):
        self.name, self.ins, self.succ, self.pred = name, [], [], []


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.entry = None
        self.loops = None


FLAGS = {"nsw", "nuw", "exact", "inbounds", "volatile", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
         "reassoc", "fast", "nneg", "disjoint", "samesign", "tail", "musttail", "notail", "fastcc", "ccc"}
PATTR0 = {"noundef", "nonnull", "zeroext", "signext", "inreg", "noalias", "nocapture", "readonly", "writeonly",
          "readnone", "returned", "immarg", "swiftself", "nest", "noinline", "dso_local", "allocptr", "dead_on_unwind",
          "writable", "nofree", "allocalign"}
PATTR1 = {"align", "alignstack", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca", "preallocated",
          "elementtype", "nofpclass", "memory", "range", "captures"}


class Parser:
    def __init__(self, text):
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.triple = ""
        self.ptrsize = 8
        self.text = text
        self.parse(text)
        self.layout = Layout(self.ptrsize)

    # -- token helpers
    def peek(self, o=0):
        return self.t[self.p + o] if self.p + o < len(self.t) else None

    def next(self):
        t = self.t[self.p] if self.p < len(self.t) else None
        self.p += 1
        return t

    def expect(self, x):
        t = self.next()
        if t != x:
            raise IRUnsupported("expected %s got %s in %s" % (x, t, " ".join(self.t)[:200]))

    def accept(self, x):
        if self.peek() == x:
            self.p += 1
            return True
        return False

    def type(self):
        t = self.next()
        if t is None:
            raise IRUnsupported("type eof")
        if re.fullmatch(r"i\d+", t):
            ty = ity(int(t[1:]))
        elif t == "ptr":
            ty = PTR
            if self.peek() == "addrspace":
                self.next(); self.expect("("); self.next(); self.expect(")")
        elif t == "void":
            ty = VOID
        elif t == "float":
            ty = FLOAT
        elif t == "double":
            ty = DOUBLE
        elif t == "half":
            ty = HALF
        elif t == "label":
            ty = LABEL
        elif t == "metadata":
            ty = META
        elif t in ("x86_fp80", "fp128", "bfloat", "token", "x86_mmx"):
            ty = Ty(t)
        elif t == "<":
            n = int(self.next()); self.expect("x"); el = self.type(); self.expect(">")
            ty = Ty("vec", n, el)
        elif t == "[":
            n = int(self.next()); self.expect("x"); el = self.type(); self.expect("]")
            ty = Ty("arr", n, el)
        elif t in ("{", "<{"):
            end = "}" if t == "{" else "}>"
            fs = []
            while not self.accept(end):
                fs.append(self.type()); self.accept(",")
            ty = Ty("struct", fields=fs, packed=(t == "<{"))
        elif t == "opaque":
            ty = Ty("struct", fields=[])
        elif t.startswith("%"):
            nm = t
            ty = self.structs.get(nm)
            if ty is None:
                ty = Ty("struct", fields=[], name=nm)
                self.structs[nm] = ty
        else:
            raise IRUnsupported("type %s in %s" % (t, " ".join(self.t)[:200]))
        # function type
        if self.peek() == "(" and ty.k != "label":
            save = self.p
            self.next()
            ps = []
            ok = True
            try:
                while not self.accept(")"):
                    if self.accept("..."):
                        continue
                    ps.append(self.type())
                    self.attrs()
                    if not self.accept(",") and self.peek() != ")":
                        ok = False
                        break
            except IRUnsupported:
                ok = False
            if ok:
                return Ty("func", el=ty, fields=ps)
            self.p = save
        return ty

    def attrs(self):
        while True:
            t = self.peek()
            if t in PATTR0 or (t and t.startswith("#")):
                self.next()
            elif t in PATTR1:
                self.next()
                if self.peek() == "(":
                    d = 0
                    while True:
                        u = self.next()
                        if u == "(":
                            d += 1
                        elif u == ")":
                            d -= 1
                            if d == 0:
                                break
                elif t == "align":
                    self.next()
            elif t and t.startswith('"'):
                self.next()
                if self.accept("="):
                    self.next()
            else:
                return

    def value(self, ty):
        t = self.next()
        if t.startswith("%"):
            return Op("local", t, ty)
        if t.startswith("@"):
            return Op("global", t, ty)
        if t == "true":
            return Op("int", 1, ty)
        if t == "false":
            return Op("int", 0, ty)
        if t == "null":
            return Op("null", None, ty)
        if t in ("undef", "poison"):
            return Op("undef", None, ty)
        if t == "zeroinitializer":
            return Op("zero", None, ty)
        if t == "none":
            return Op("undef", None, ty)
        if ty.k in ("float", "double", "half"):
            return Op("fp", t, ty)
        if re.fullmatch(r"-?\d+", t):
            return Op("int", int(t), ty)
        if t == "<" or t == "[" or t == "{" or t == "<{":
            end = {"<": ">", "[": "]", "{": "}", "<{": "}>"}[t]
            els = []
            while not self.accept(end):
                et = self.type()
                els.append(self.value(et))
                self.accept(",")
            return Op("agg", els, ty)
        if t.startswith('c"'):
            return Op("str", unescape(t[2:-1]), ty)
        if t == "getelementptr":
            fl = set()
            while self.peek() in ("inbounds", "nuw", "nusw"):
                fl.add(self.next())
            if self.peek() == "inrange":
                self.next(); self.skip_paren()
            self.expect("(")
            bt = self.type(); self.expect(",")
            pt = self.type(); base = self.value(pt)
            idx = []
            while self.accept(","):
                self.accept("inrange")
                it = self.type(); idx.append(self.value(it))
            self.expect(")")
            return Op("gep", (bt, base, idx), ty)
        if t in ("bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "addrspacecast"):
            self.expect("(")
            st = self.type(); v = self.value(st)
            self.expect("to"); dt = self.type(); self.expect(")")
            return Op("cast", (t, v), dt)
        if t in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr"):
            while self.peek() in FLAGS:
                self.next()
            self.expect("(")
            t1 = self.type(); a = self.value(t1); self.expect(","); t2 = self.type(); b = self.value(t2)
            self.expect(")")
            return Op("cbin", (t, a, b), ty)
        if t.startswith("!"):
            return Op("meta", t, ty)
        if t == "asm":
            x = []
            while self.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"):
                x.append(self.next())
            s = unescape(self.next()[1:-1]); self.expect(","); c = unescape(self.next()[1:-1])
            return Op("asm", (s.decode("latin1"), c.decode("latin1"), x), ty)
        if t == "dso_local_equivalent" or t == "no_cfi":
            return self.value(ty)
        raise IRUnsupported("value %s in %s" % (t, " ".join(self.t)[:300]))

    def skip_paren(self):
        self.expect("(")
        d = 1
        while d:
            u = self.next()
            if u == "(":
                d += 1
            elif u == ")":
                d -= 1

    def tyval(self):
        ty = self.type()
        self.attrs()
        return self.value(ty)

    # -- top level
    def parse(self, text):
        lines = text.split("\n")
        # named struct types first
        for ln in lines:
            if ln.startswith("%") and " = type " in ln:
                nm = ln.split(" = type ")[0]
                self.structs.setdefault(nm, Ty("struct", fields=[], name=nm))
        for ln in lines:
            if ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                self.t = tokenize(rest); self.p = 0
                ty = self.type()
                s = self.structs[nm]
                s.fields, s.packed, s.k = ty.fields or [], ty.packed, "struct"
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("target datalayout"):
                m = re.search(r"-p:(\d+)", ln)
                if m:
                    self.ptrsize = int(m.group(1)) // 8
            elif ln.startswith("target triple"):
                self.triple = ln.split('"')[1]
            elif ln.startswith("@"):
                self.parse_global(ln)
            elif ln.startswith("declare"):
                self.t = tokenize(ln); self.p = 1
                f, _ = self.header()
                self.decls[f.name] = f
            elif ln.startswith("define"):
                self.t = tokenize(ln); self.p = 1
                f, _ = self.header()
                j = i + 1
                body = []
                while lines[j] != "}":
                    body.append(lines[j]); j += 1
                self.parse_body(f, body)
                self.funcs[f.name] = f
                i = j
            i += 1

    def parse_global(self, ln):
        try:
            self.t = tokenize(ln); self.p = 0
            nm = self.next(); self.expect("=")
            while self.peek() not in ("global", "constant", "alias"):
                if self.peek() is None:
                    return
                self.next()
            kind = self.next()
            if kind == "alias":
                return
            ty = self.type()
            init = None
            if self.peek() not in (",", None):
                init = self.value(ty)
            self.globals[nm] = (ty, init, kind == "constant")
        except IRUnsupported:
            self.globals[ln.split(" ")[0]] = (None, None, False)

    def header(self):
        while True:
            t = self.peek()
            if t is None:
                raise IRUnsupported("header")
            save = self.p
            if t in ("ptr", "void", "float", "double", "half", "<", "[", "{", "<{") or re.fullmatch(r"i\d+", t) \
                    or (t.startswith("%")):
                rt = self.type()
                if rt.k == "func":
                    self.p = save
                    rt = Ty("void")
                    raise IRUnsupported("function type header")
                self.attrs()
                if self.peek() and self.peek().startswith("@"):
                    break
                self.p = save
            self.attrs_one()
        nm = self.next()
        self.expect("(")
        params = []
        k = 0
        while not self.accept(")"):
            if self.accept("..."):
                continue
            ty = self.type(); self.attrs()
            if self.peek() and self.peek().startswith("%"):
                pn = self.next()
            else:
                pn = "%" + str(k)
            k += 1
            params.append((pn, ty))
            self.accept(",")
        return Func(nm, rt, params), None

    def attrs_one(self):
        t = self.peek()
        if t in PATTR1:
            self.attrs()
        else:
            self.next()

    def parse_body(self, f, body):
        cur = None
        npar = len(f.params)
        joined = []
        k = 0
        while k < len(body):
            ln = body[k]
            if re.match(r"\s+switch ", ln) and "]" not in ln:
                while "]" not in body[k]:
                    k += 1
                    ln += " " + body[k]
            joined.append(ln)
            k += 1
        first = True
        for ln in joined:
            if not ln.strip() or ln.strip().startswith(";"):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
            if m:
                cur = Block("%" + m.group(1))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                first = False
                continue
            if first:
                cur = Block("%" + str(npar))
                # implicit entry label number = number of unnamed params
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                first = False
            cur.ins.append(self.instr(ln))
        f.entry = f.order[0]
        for b in f.blocks.values():
            last = b.ins[-1]
            b.succ = list(last.x.get("succ", []))
        for b in f.blocks.values():
            for s in b.succ:
                f.blocks[s].pred.append(b.name)

    def instr(self, ln):
        self.t = tokenize(ln); self.p = 0
        res = None
        if self.peek(1) == "=":
            res = self.next(); self.next()
        fl = set()
        while self.peek() in ("tail", "musttail", "notail"):
            self.next()
        op = self.next()
        text = ln.strip()
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            while self.peek() in FLAGS:
                fl.add(self.next())
            ty = self.type()
            a = self.value(ty); self.expect(","); b = self.value(ty)
            return Instr(op, res, ty, [a, b], {"fl": fl}, text)
        if op == "fneg":
            while self.peek() in FLAGS:
                fl.add(self.next())
            return Instr(op, res, None, [self.tyval()], {}, text)
        if op in ("icmp", "fcmp"):
            while self.peek() in FLAGS:
                fl.add(self.next())
            pred = self.next(); ty = self.type()
            a = self.value(ty); self.expect(","); b = self.value(ty)
            return Instr(op, res, ty, [a, b], {"pred": pred}, text)
        if op == "select":
            while self.peek() in FLAGS:
                fl.add(self.next())
            c = self.tyval(); self.expect(","); a = self.tyval(); self.expect(","); b = self.tyval()
            return Instr(op, res, a.ty, [c, a, b], {}, text)
        if op == "phi":
            while self.peek() in FLAGS:
                fl.add(self.next())
            ty = self.type()
            inc = []
            while self.accept("["):
                v = self.value(ty); self.expect(","); b = self.next(); self.expect("]")
                inc.append((v, b)); self.accept(",")
            return Instr(op, res, ty, [], {"inc": inc}, text)
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp",
                  "fpext", "fptrunc", "addrspacecast"):
            while self.peek() in FLAGS:
                fl.add(self.next())
            v = self.tyval(); self.expect("to"); ty = self.type()
            return Instr(op, res, ty, [v], {"fl": fl}, text)
        if op == "freeze":
            v = self.tyval()
            return Instr(op, res, v.ty, [v], {}, text)
        if op == "alloca":
            self.accept("inalloca")
            ty = self.type()
            n = None
            while self.accept(","):
                if self.peek() == "align":
                    self.next(); self.next()
                elif self.peek() == "addrspace":
                    self.next(); self.skip_paren()
                else:
                    n = self.tyval()
            return Instr(op, res, ty, [n] if n else [], {}, text)
        if op == "load":
            at = self.accept("atomic"); self.accept("volatile")
            ty = self.type(); self.expect(",")
            p = self.tyval()
            return Instr(op, res, ty, [p], {"atomic": at}, text)
        if op == "store":
            at = self.accept("atomic"); self.accept("volatile")
            v = self.tyval(); self.expect(","); p = self.tyval()
            return Instr(op, None, v.ty, [v, p], {"atomic": at}, text)
        if op == "getelementptr":
            while self.peek() in FLAGS or self.peek() == "nusw":
                fl.add(self.next())
            bt = self.type(); self.expect(",")
            base = self.tyval()
            idx = []
            while self.accept(","):
                if self.peek().startswith("!"):
                    break
                idx.append(self.tyval())
            return Instr(op, res, PTR, [base] + idx, {"bt": bt}, text)
        if op == "br":
            if self.peek() == "label":
                self.next()
                return Instr(op, None, None, [], {"succ": [self.next()]}, text)
            c = self.tyval(); self.expect(","); self.expect("label"); a = self.next()
            self.expect(","); self.expect("label"); b = self.next()
            return Instr(op, None, None, [c], {"succ": [a, b]}, text)
        if op == "switch":
            v = self.tyval(); self.expect(","); self.expect("label"); d = self.next()
            self.expect("[")
            cases = []
            while not self.accept("]"):
                c = self.tyval(); self.expect(","); self.expect("label"); cases.append((c, self.next()))
            return Instr(op, None, None, [v], {"succ": [d] + [c[1] for c in cases], "cases": cases}, text)
        if op == "ret":
            ty = self.type()
            if ty.k == "void":
                return Instr(op, None, ty, [], {}, text)
            return Instr(op, None, ty, [self.value(ty)], {}, text)
        if op == "unreachable":
            return Instr(op, text=text)
        if op in ("call", "invoke"):
            while self.peek() in FLAGS or self.peek() in ("fastcc", "ccc"):
                fl.add(self.next())
            self.attrs()
            ty = self.type()
            if ty.k == "func":
                rt = ty.el
            else:
                rt = ty
            self.attrs()
            callee = self.value(PTR if self.peek() != "asm" else rt)
            self.expect("(")
            args = []
            while not self.accept(")"):
                at = self.type(); self.attrs()
                if at.k == "metadata":
                    d = 0
                    while not (d == 0 and self.peek() in (",", ")")):
                        u = self.next()
                        d += u == "("
                        d -= u == ")"
                    args.append(Op("meta", None, at))
                else:
                    args.append(self.value(at))
                self.accept(",")
            x = {"callee": callee}
            if op == "invoke":
                while self.peek() != "to":
                    self.next()
                self.next(); self.next(); a = self.next(); self.next(); self.next(); b = self.next()
                x["succ"] = [a, b]
            return Instr(op, res, rt, args, x, text)
        if op == "extractelement":
            v = self.tyval(); self.expect(","); i = self.tyval()
            return Instr(op, res, v.ty.el, [v, i], {}, text)
        if op == "insertelement":
            v = self.tyval(); self.expect(","); e = self.tyval(); self.expect(","); i = self.tyval()
            return Instr(op, res, v.ty, [v, e, i], {}, text)
        if op == "shufflevector":
            a = self.tyval(); self.expect(","); b = self.tyval(); self.expect(","); m = self.tyval()
            return Instr(op, res, Ty("vec", m.ty.n, a.ty.el), [a, b, m], {}, text)
        if op == "extractvalue":
            v = self.tyval(); idx = []
            while self.accept(","):
                if self.peek().startswith("!"):
                    break
                idx.append(int(self.next()))
            return Instr(op, res, None, [v], {"idx": idx}, text)
        if op == "insertvalue":
            v = self.tyval(); self.expect(","); e = self.tyval(); idx = []
            while self.accept(","):
                if self.peek().startswith("!"):
                    break
                idx.append(int(self.next()))
            return Instr(op, res, v.ty, [v, e], {"idx": idx}, text)
        if op == "atomicrmw":
            self.accept("volatile")
            k = self.next(); p = self.tyval(); self.expect(","); v = self.tyval()
            return Instr(op, res, v.ty, [p, v], {"k": k}, text)
        if op == "cmpxchg":
            self.accept("weak"); self.accept("volatile")
            p = self.tyval(); self.expect(","); a = self.tyval(); self.expect(","); b = self.tyval()
            return Instr(op, res, None, [p, a, b], {}, text)
        if op == "fence":
            return Instr(op, text=text)
        if op in ("landingpad", "resume", "va_arg", "indirectbr", "callbr"):
            return Instr("unsupported", res, None, [], {}, text)
        raise IRUnsupported("instr " + ln)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode("utf8"); i += 1
    return bytes(out)


# ---------------------------------------------------------------- loops
class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.parent = None


def analyse_loops(f):
    """dominators + natural loops; f.loops: header -> Loop"""
    order = []
    seen = set()

    def dfs(b):
        stack = [(b, iter(f.blocks[b].succ))]
        seen.add(b)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                order.append(n)
                stack.pop()
    dfs(f.entry)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in f.blocks[b].pred:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True
    f.idom = idom

    def dom(a, b):
        while True:
            if a == b:
                return True
            if idom[b] == b:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if num[s] <= num[b] and not dom(s, b):
                raise IRUnsupported("irreducible control flow in %s" % f.name)
            if s in num and dom(s, b):
                L = loops.setdefault(s, Loop(s))
                work = [b]
                while work:
                    n = work.pop()
                    if n not in L.blocks:
                        L.blocks.add(n)
                        work += [p for p in f.blocks[n].pred if p in num]
    for L in loops.values():
        for M in loops.values():
            if L is not M and L.header in M.blocks:
                if L.parent is None or len(M.blocks) < len(L.parent.blocks):
                    L.parent = M
    f.loops = loops
    return loops
