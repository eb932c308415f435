"""Parser for the textual LLVM IR that clang 18 emits (opaque pointers)."""
import re, struct
from .terms import const, T

TOK = re.compile(r'''\s+|;[^\n]*|(?P<s>c?"(?:[^"\\]|\\.)*")|(?P<l>[%@][-a-zA-Z$._0-9]+|[%@]"[^"]*")|(?P<n>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)|(?P<w>[a-zA-Z_][-a-zA-Z0-9_.]*)|(?P<m>![-a-zA-Z0-9_.]*)|(?P<h>\#\d+)|(?P<p>\.\.\.|[()\[\]{}<>,=*:|^$&!])''')


def tokens(line):
    out = []
    pos = 0
    while pos < len(line):
        m = TOK.match(line, pos)
        if not m:
            raise SyntaxError("token at %r" % line[pos:pos + 40])
        pos = m.end()
        if m.lastgroup:
            out.append(m.group(m.lastgroup))
    return out


class Ty:
    __slots__ = ("k", "n", "e", "_sz", "_al", "_off", "packed")

    def __init__(self, k, n=0, e=None, packed=False):
        self.k, self.n, self.e, self.packed = k, n, e, packed
        self._sz = self._al = self._off = None

    def __repr__(self):
        return "%s%s%s" % (self.k, self.n or "", self.e or "")

    @property
    def bits(self):
        if self.k == "i":
            return self.n
        if self.k == "ptr":
            return 64
        if self.k == "double":
            return 64
        if self.k == "float":
            return 32
        raise TypeError(self)

    @property
    def size(self):
        if self._sz is None:
            self._layout()
        return self._sz

    @property
    def align(self):
        if self._al is None:
            self._layout()
        return self._al

    @property
    def offs(self):
        if self._sz is None:
            self._layout()
        return self._off

    def _layout(self):
        k = self.k
        if k in ("i", "ptr", "double", "float"):
            b = (self.bits + 7) // 8
            p = 1
            while p < b:
                p *= 2
            self._sz, self._al = p, min(p, 16)
        elif k == "[":
            self._sz, self._al = self.n * self.e.size, self.e.align
        elif k == "<":
            b = self.n * self.e.bits
            self._sz = (b + 7) // 8
            self._al = self._sz
        elif k == "{":
            off, al, offs = 0, 1, []
            for t in self.e:
                a = 1 if self.packed else t.align
                off = (off + a - 1) // a * a
                offs.append(off)
                off += t.size
                al = max(al, a)
            self._sz, self._al, self._off = (off + al - 1) // al * al, al, offs
        elif k in ("fn", "void"):
            self._sz, self._al = 1, 1
        else:
            raise TypeError("layout of " + k)


PTR = Ty("ptr")
DBL = Ty("double")
FLT = Ty("float")
VOID = Ty("void")
_ints = {}


def I(n):
    if n not in _ints:
        _ints[n] = Ty("i", n)
    return _ints[n]


class Fn:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.ret = None
        self.vararg = False
        self.blocks = {}
        self.entry = None
        self.nins = 0


class Ins:
    __slots__ = ("op", "res", "a", "ty", "x", "src")

    def __init__(self, op, res=None, a=(), ty=None, x=None, src=""):
        self.op, self.res, self.a, self.ty, self.x, self.src = op, res, a, ty, x, src

    def __repr__(self):
        return self.src


ATTRS = set("""noundef nonnull signext zeroext inreg noalias nocapture readonly readnone writeonly returned nest
immarg swiftself noinline dead_on_unwind allocptr allocalign nofree local_unnamed_addr unnamed_addr internal private external
linkonce_odr weak common dso_local global constant tail musttail notail nsw nuw exact inbounds disjoint nneg fast
nnan ninf nsz arcp contract afn reassoc volatile thread_local hidden default protected fastcc ccc coldcc weak_odr available_externally
samesign""".split())
PATTRS = ("align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "range", "captures", "memory", "allocsize",
          "elementtype", "addrspace", "inalloca", "preallocated", "writable", "initializes")


class P:
    """token cursor"""
    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise SyntaxError("expected %r, got %r in %r" % (x, self.peek(), " ".join(self.t)[:300]))

    def attrs(self):
        vol = False
        seen = []
        while True:
            p = self.peek()
            if p in ATTRS:
                seen.append(p)
                self.i += 1
            elif p in PATTRS:
                self.i += 1
                if self.peek() == "(":
                    self.parens()
                elif p == "align":
                    self.i += 1
            elif p is not None and p.startswith("#") and p[1:].isdigit():
                self.i += 1
            elif p is not None and p[0] == '"':
                self.i += 1
                if self.eat("="):
                    self.i += 1
            else:
                return seen

    def parens(self):
        self.need("(")
        d = 1
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def type(self):
        x = self.next()
        if x[0] == "i" and x[1:].isdigit():
            t = I(int(x[1:]))
        elif x == "ptr":
            t = PTR
            if self.peek() == "addrspace":
                self.i += 1
                self.parens()
        elif x == "double":
            t = DBL
        elif x == "float":
            t = FLT
        elif x == "void":
            t = VOID
        elif x in ("x86_fp80", "fp128", "half", "bfloat", "label", "token", "metadata", "opaque"):
            t = Ty(x)
        elif x == "[":
            n = int(self.next())
            self.need("x")
            e = self.type()
            self.need("]")
            t = Ty("[", n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                t = self.struct(True)
                self.need(">")
            else:
                n = int(self.next())
                self.need("x")
                e = self.type()
                self.need(">")
                t = Ty("<", n, e)
        elif x == "{":
            t = self.struct(False)
        elif x[0] == "%":
            t = self.m.named(x)
        else:
            raise SyntaxError("type %r in %r" % (x, " ".join(self.t)[:200]))
        while self.peek() == "(" and t.k in ("void", "i", "ptr", "double", "{", "<", "[", "float"):
            # function type
            self.parens_types()
            return Ty("fn", 0, t)
        return t

    def parens_types(self):
        self.need("(")
        d = 1
        va = False
        while d:
            x = self.next()
            if x == "(":
                d += 1
            elif x == ")":
                d -= 1

    def struct(self, packed):
        e = []
        if not self.eat("}"):
            while True:
                e.append(self.type())
                if self.eat("}"):
                    break
                self.need(",")
        return Ty("{", 0, e, packed)

    # operands: ('r', name) or ('k', value)
    def value(self, ty):
        x = self.peek()
        if x[0] == "%":
            self.i += 1
            return ("r", x)
        return ("k", self.constant(ty))

    def typed(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)

    def constant(self, ty):
        x = self.next()
        m = self.m
        if x[0] == "@":
            return const(m.addr(x), 64)
        if x == "true":
            return const(1, 1)
        if x == "false":
            return const(0, 1)
        if x in ("null", "none"):
            return const(0, 64)
        if x in ("zeroinitializer",):
            return zero(ty)
        if x in ("undef", "poison"):
            return undef(ty)
        if x[0] == "c" and x[1:2] == '"':
            return [const(b, 8) for b in cstr(x[2:-1])]
        if ty.k in ("double", "float") and (x[0].isdigit() or x[0] == "-"):
            if x.startswith("0x"):
                v = int(x, 16)
                f = struct.unpack("<d", struct.pack("<Q", v))[0]
            else:
                f = float(x)
            if ty.k == "double":
                return const(struct.unpack("<Q", struct.pack("<d", f))[0], 64)
            return const(struct.unpack("<I", struct.pack("<f", f))[0], 32)
        if x[0].isdigit() or x[0] == "-":
            return const(int(x, 0), ty.bits)
        if x == "<":
            if self.peek() == "{":
                self.next()
                v = self.constlist("}")
                self.need(">")
                return v
            return self.constlist(">")
        if x == "[":
            return self.constlist("]")
        if x == "{":
            return self.constlist("}")
        if x == "getelementptr":
            self.attrs()
            if self.peek() == "inrange":
                self.i += 1
                self.parens()
            self.need("(")
            st = self.type()
            self.need(",")
            bt, base = self.typed()
            addr = base[1].args[0]
            idx = []
            while self.eat(","):
                t, v = self.typed()
                idx.append(v[1])
            self.need(")")
            return const(addr + gepoff(st, idx), 64)
        if x in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
            self.need("(")
            t, v = self.typed()
            self.need("to")
            t2 = self.type()
            self.need(")")
            return const(v[1].args[0], t2.bits)
        if x in ("add", "sub", "mul", "xor", "and", "or", "shl", "lshr"):
            self.attrs()
            self.need("(")
            t, a = self.typed()
            self.need(",")
            t, b = self.typed()
            self.need(")")
            p, q = a[1].args[0], b[1].args[0]
            v = {"add": p + q, "sub": p - q, "mul": p * q, "xor": p ^ q, "and": p & q, "or": p | q,
                 "shl": p << q, "lshr": p >> q}[x]
            return const(v, t.bits)
        if x == "blockaddress":
            raise SyntaxError("blockaddress")
        raise SyntaxError("constant %r in %r" % (x, " ".join(self.t)[:300]))

    def constlist(self, end):
        out = []
        if self.eat(end):
            return out
        while True:
            t = self.type()
            out.append(self.constant(t))
            if self.eat(end):
                return out
            self.need(",")


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


class Undef:
    pass


def undef(ty):
    return zero(ty)          # reads of undef give zero; harnesses do not depend on it


def zero(ty):
    if ty.k in ("[", "<"):
        return [zero(ty.e) for _ in range(ty.n)]
    if ty.k == "{":
        return [zero(t) for t in ty.e]
    return const(0, ty.bits)


def sx(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v


def gepoff(st, idx):
    off = sx(idx[0]) * st.size
    t = st
    for i in idx[1:]:
        if t.k == "{":
            k = i.args[0]
            off += t.offs[k]
            t = t.e[k]
        else:
            off += sx(i) * t.e.size
            t = t.e
    return off


class Module:
    """addresses: every global and function lives in its own 4 GiB slot"""
    def __init__(self, text):
        self.types = {}
        self.glob = {}        # name -> (Ty, init, readonly)
        self.fns = {}
        self.decl = set()
        self.slot = {}
        self.nslot = 16
        self.byslot = {}
        self._tytext = {}
        self.parse(text)

    def addr(self, name):
        s = self.slot.get(name)
        if s is None:
            s = self.slot[name] = self.nslot
            self.byslot[s] = name
            self.nslot += 1
        return (s << 42) + 0x10000

    def named(self, name):
        t = self.types.get(name)
        if t is None:
            txt = self._tytext.get(name)
            t = self.types[name] = Ty("{", 0, [])
            if txt is None or txt == "opaque":
                t.e = []
            else:
                p = P(self, tokens(txt))
                x = p.type()
                t.e, t.packed, t.k = x.e, x.packed, x.k
        return t

    def parse(self, text):
        lines = text.split("\n")
        i = 0
        bodies = []
        globs = []
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, d = l.split(" = type ", 1)
                self._tytext[n.strip()] = d.strip()
            elif l.startswith("@"):
                globs.append(l)
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                bodies.append((l, lines[i + 1:j]))
                i = j
            elif l.startswith("declare"):
                m = re.search(r'(@[-\w$.]+|@"[^"]+")\(', l)
                self.decl.add(m.group(1))
                self.addr(m.group(1))
            i += 1
        for l, b in bodies:
            m = re.search(r'(@[-\w$.]+|@"[^"]+")\(', l)
            self.addr(m.group(1))
        for l in globs:
            self.addr(l.split(" ", 1)[0])
        for l in globs:
            self.global_(l)
        for l, b in bodies:
            self.function(l, b)

    def global_(self, l):
        l = re.sub(r', ![a-zA-Z]+ !\d+', '', l)
        p = P(self, tokens(l))
        name = p.next()
        p.need("=")
        at = p.attrs()
        if p.peek() == "alias":
            raise SyntaxError("alias")
        ro = "constant" in at
        t = p.type()
        init = None
        if p.peek() is not None and p.peek() not in (",", "section", "comdat", "align") and "external" not in at:
            init = p.constant(t)
        self.glob[name] = (t, init, ro)

    def function(self, l, body):
        p = P(self, tokens(l))
        p.need("define")
        p.attrs()
        ret = p.type()
        name = p.next()
        f = Fn(name)
        f.ret = ret
        p.need("(")
        if not p.eat(")"):
            while True:
                if p.eat("..."):
                    f.vararg = True
                else:
                    t = p.type()
                    p.attrs()
                    nm = p.next() if p.peek() and p.peek()[0] == "%" else None
                    f.params.append((t, nm if nm else "%" + str(len(f.params))))
                if p.eat(")"):
                    break
                p.need(",")
        # unnamed parameters are numbered from 0; the entry block takes the next number
        cur = []
        lab = None
        nun = sum(1 for _ in f.params)
        first = None
        k = 0
        while k < len(body):
            s = body[k].strip()
            k += 1
            if not s or s.startswith(";") or s.startswith("#dbg"):
                continue
            m = re.match(r'^([-\w$.]+|"[^"]+"):(\s*;.*)?$', s)
            if m:
                lab = "%" + m.group(1)
                cur = f.blocks[lab] = []
                if first is None:
                    first = lab
                continue
            if first is None:
                lab = first = "%" + str(nun)
                cur = f.blocks[lab] = []
            # multi-line switch
            if s.startswith("switch") and "]" not in s:
                while "]" not in body[k]:
                    s += " " + body[k].strip()
                    k += 1
                s += " " + body[k].strip()
                k += 1
            s = re.sub(r', ![-a-zA-Z._0-9]+ !\d+', '', s)
            ins = self.ins(s)
            if ins is not None:
                cur.append(ins)
                f.nins += 1
        f.entry = first
        self.fns[name] = f

    def ins(self, s):
        p = P(self, tokens(s))
        res = None
        if p.t[0][0] == "%" and p.t[1] == "=":
            res = p.next()
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "call":
            return self.call(p, res, s)
        if op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
                  "fadd", "fsub", "fmul", "fdiv"):
            at = p.attrs()
            t = p.type()
            a = p.value(t)
            p.need(",")
            b = p.value(t)
            return Ins(op, res, (a, b), t, at, s)
        if op in ("fneg", "freeze"):
            p.attrs()
            t, a = p.typed()
            return Ins(op, res, (a,), t, None, s)
        if op in ("icmp", "fcmp"):
            p.attrs()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.need(",")
            b = p.value(t)
            return Ins(op, res, (a, b), t, pred, s)
        if op == "load":
            p.attrs()
            t = p.type()
            p.need(",")
            _, a = p.typed()
            al = self.align(p)
            return Ins(op, res, (a,), t, al, s)
        if op == "store":
            p.attrs()
            t, v = p.typed()
            p.need(",")
            _, a = p.typed()
            return Ins(op, None, (v, a), t, self.align(p), s)
        if op == "getelementptr":
            p.attrs()
            t = p.type()
            p.need(",")
            _, b = p.typed()
            idx = []
            while p.eat(","):
                it, v = p.typed()
                idx.append((it, v))
            return Ins(op, res, (b,), t, idx, s)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Ins("jmp", None, (), None, p.next(), s)
            t, c = p.typed()
            p.need(",")
            p.need("label")
            a = p.next()
            p.need(",")
            p.need("label")
            b = p.next()
            return Ins("br", None, (c,), None, (a, b), s)
        if op == "switch":
            t, c = p.typed()
            p.need(",")
            p.need("label")
            d = p.next()
            p.need("[")
            cases = []
            while not p.eat("]"):
                ct, v = p.typed()
                p.need(",")
                p.need("label")
                cases.append((v[1], p.next()))
            return Ins(op, None, (c,), t, (d, cases), s)
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return Ins(op, None, (), t, None, s)
            p.attrs()
            return Ins(op, None, (p.value(t),), t, None, s)
        if op == "phi":
            p.attrs()
            t = p.type()
            inc = {}
            while True:
                p.need("[")
                v = p.value(t)
                p.need(",")
                inc[p.next()] = v
                p.need("]")
                if not p.eat(","):
                    break
            return Ins(op, res, (), t, inc, s)
        if op == "select":
            p.attrs()
            ct, c = p.typed()
            p.need(",")
            t, a = p.typed()
            p.need(",")
            t, b = p.typed()
            return Ins(op, res, (c, a, b), t, ct, s)
        if op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp", "fptoui", "fptosi", "fpext", "fptrunc"):
            p.attrs()
            t, a = p.typed()
            p.need("to")
            t2 = p.type()
            return Ins(op, res, (a,), t2, t, s)
        if op == "alloca":
            p.attrs()
            t = p.type()
            n = None
            if p.eat(","):
                if p.peek() not in ("align",):
                    _, n = p.typed()
            return Ins(op, res, (n,) if n else (), t, self.align(p), s)
        if op == "unreachable":
            return Ins(op, None, (), None, None, s)
        if op == "extractelement":
            t, v = p.typed()
            p.need(",")
            _, i = p.typed()
            return Ins(op, res, (v, i), t, None, s)
        if op == "insertelement":
            t, v = p.typed()
            p.need(",")
            et, e = p.typed()
            p.need(",")
            _, i = p.typed()
            return Ins(op, res, (v, e, i), t, None, s)
        if op == "shufflevector":
            t, a = p.typed()
            p.need(",")
            t, b = p.typed()
            p.need(",")
            mt = p.type()
            if p.peek() in ("poison", "undef", "zeroinitializer"):
                p.next()
                mask = [0] * mt.n
            else:
                p.need("<")
                mask = []
                while True:
                    p.type()
                    x = p.next()
                    mask.append(-1 if x in ("poison", "undef") else int(x))
                    if p.eat(">"):
                        break
                    p.need(",")
            return Ins(op, res, (a, b), t, mask, s)
        if op == "extractvalue":
            t, v = p.typed()
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return Ins(op, res, (v,), t, idx, s)
        if op == "insertvalue":
            t, v = p.typed()
            p.need(",")
            t2, e = p.typed()
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return Ins(op, res, (v, e), t, idx, s)
        if op == "fence":
            return None
        if op == "cmpxchg" or op == "atomicrmw" or op == "va_arg" or op == "indirectbr":
            raise SyntaxError("unsupported " + s)
        raise SyntaxError("instruction " + s)

    def align(self, p):
        while p.peek() is not None:
            if p.next() == "align":
                return int(p.next())
        return None

    def call(self, p, res, s):
        p.attrs()
        rt = p.type()
        if rt.k == "fn":
            rt = rt.e
        elif p.peek() == "(":
            p.parens()
        x = p.next()
        if x == "asm":
            raise SyntaxError("inline asm: " + s)
        if x[0] == "%":
            fn = ("r", x)
        elif x[0] == "@":
            fn = ("f", x)
            self.addr(x)
        else:
            p.i -= 1
            fn = ("k", p.constant(PTR))
        p.need("(")
        args = []
        if not p.eat(")"):
            while True:
                if p.peek() == "metadata":
                    # debug metadata: ignore the call
                    return None
                t = p.type()
                p.attrs()
                args.append((t, p.value(t)))
                if p.eat(")"):
                    break
                p.need(",")
        if fn[0] == "f" and fn[1].startswith("@llvm.dbg."):
            return None
        return Ins("call", res, tuple(a for _, a in args), rt, (fn, tuple(t for t, _ in args)), s)
