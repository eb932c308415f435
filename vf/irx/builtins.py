"""Intrinsics and external functions known to the executor."""
from .terms import *
from .terms import _ev2
from . import exec as X


DBG = __import__('os').environ.get('IRX_SAME')


def install(ex):
    B = ex.builtins

    def reg(*names):
        def d(f):
            for n in names:
                B["@" + n] = f
            return f
        return d

    nop = lambda ex, st, fr, ins, a: None
    for n in ("llvm.lifetime.start.p0", "llvm.lifetime.end.p0", "llvm.experimental.noalias.scope.decl", "llvm.va_end.p0", "llvm.va_end",
              "llvm.stackrestore.p0", "llvm.donothing", "llvm.prefetch.p0"):
        B["@" + n] = nop
    B["@llvm.stacksave.p0"] = lambda ex, st, fr, ins, a: const(0, 64)

    @reg("llvm.assume")
    def _(ex, st, fr, ins, a):
        return None

    @reg("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.inline.p0.p0.i64", "memcpy", "memmove")
    def _(ex, st, fr, ins, a):
        zlen(ex, st, a[2])
        ex.copy(st, a[0], a[1], a[2])
        return a[0]

    @reg("llvm.memset.p0.i64", "memset")
    def _(ex, st, fr, ins, a):
        zlen(ex, st, a[2])
        ex.fill(st, a[0], ext(a[1], 0, 8), a[2])
        return a[0]

    def zlen(ex, st, n):
        # a zero length accesses nothing: decide that first
        if n.op != "c":
            z = eq(n, const(0, 64))
            if ex.known(st, z) is None:
                raise X.ForkRetry(z)

    def vec(f):
        def g(ex, st, fr, ins, a):
            if isinstance(a[0], list):
                return [f(*[x[i] if isinstance(x, list) else x for x in a]) for i in range(len(a[0]))]
            return f(*a)
        return g

    sat = {
        "umin": lambda a, b: ite(ult(a, b), a, b), "umax": lambda a, b: ite(ult(a, b), b, a),
        "smin": lambda a, b: ite(slt(a, b), a, b), "smax": lambda a, b: ite(slt(a, b), b, a),
        "usub.sat": lambda a, b: ite(ult(a, b), const(0, a.w), sub(a, b)),
        "uadd.sat": lambda a, b: ite(ult(add(a, b), a), const(-1, a.w), add(a, b)),
        "abs": lambda a, b: ite(slt(a, const(0, a.w)), neg(a), a),
        "bswap": lambda a: cat([ext(a, i * 8, 8) for i in range(a.w // 8)]),
        "fshl": lambda a, b, c: fsh(a, b, c, True), "fshr": lambda a, b, c: fsh(a, b, c, False),
        "expect": lambda a, b: a,
        "ctpop": lambda a: add(*[zext(ext(a, i, 1), a.w) for i in range(a.w)]) if a.w > 1 else a,
        "is.constant": lambda a: FALSE,
        "cttz": lambda a, z: count(a, range(a.w)), "ctlz": lambda a, z: count(a, range(a.w - 1, -1, -1)),
        "vector.reduce.or": None, "vector.reduce.xor": None, "vector.reduce.add": None, "vector.reduce.and": None,
    }

    def count(a, rng):
        r = const(a.w, a.w)
        for k, i in reversed(list(enumerate(rng))):
            r = ite(eq(ext(a, i, 1), TRUE), const(k, a.w), r)
        return r

    def fsh(a, b, c, left):
        if c.op != "c":
            if a is b:
                w = const(a.w, a.w)
                k = binop("urem", c, w)
                r = sub(w, k)
                if not left:
                    k, r = r, k
                return xor(binop("shl", a, k), binop("lshr", a, r))
            raise X.Inconclusive("symbolic funnel shift")
        k = cv(c) % a.w
        if a is b:
            return rotl(a, k) if left else rotr(a, k)
        d = cat((a, b))
        return ext(d, a.w - k, a.w) if left else ext(d, k, a.w)

    def mm(sw):
        def f(ex, st, fr, ins, a):
            def one(x, y):
                c = ult(x, y)
                if c.op != "c" and x.w >= 32 and not ex.fpmode:
                    k = ex.known(st, c)
                    if k is not None:
                        c = TRUE if k else FALSE
                return ite(c, y, x) if sw else ite(c, x, y)
            return [one(x, y) for x, y in zip(*a)] if isinstance(a[0], list) else one(*a)
        return f

    class Disp(dict):
        def get(self, k, d=None):
            v = dict.get(self, k)
            if v is not None or not k.startswith("@llvm."):
                return v if v is not None else d
            v = resolve(k[6:])
            if v is not None:
                self[k] = v
            return v

    def resolve(n):
        if n.startswith("umin.") or n.startswith("umax."):
            return mm(n[1:4] == "max")
        for p, f in sat.items():
            if n.startswith(p + ".i") or n.startswith(p + ".v"):
                if f is not None:
                    return vec(f)
        if n.startswith("vector.reduce."):
            op = n.split(".")[2]
            f = {"or": or_, "xor": xor, "and": and_, "add": add}[op]
            return lambda ex, st, fr, ins, a: f(*a[0])
        for p, kind in (("uadd", 0), ("usub", 1), ("umul", 2), ("sadd", 3), ("ssub", 4), ("smul", 5)):
            if n.startswith(p + ".with.overflow"):
                return ovf(kind)
        if n.startswith("fabs.f64"):
            return lambda ex, st, fr, ins, a: fp("fabs", (a[0],), 64)
        if n.startswith("objectsize"):
            return lambda ex, st, fr, ins, a: const(-1, 64)
        if n.startswith("ubsantrap") or n == "trap" or n == "debugtrap":
            def f(ex, st, fr, ins, a):
                kinds = {0: "integer overflow (add)", 1: "alignment", 3: "division", 12: "integer overflow (mul)", 13: "negation",
                         18: "out of bounds", 20: "shift out of range", 21: "integer overflow (sub)", 22: "null or misaligned pointer",
                         5: "float cast overflow", 19: "pointer overflow"}
                k = cv(a[0]) if a else -1
                ex.report(st, "ub", "undefined behaviour: %s" % kinds.get(k, "kind %d" % k), ex.ensure_model(st))
                raise X.Violation("ub", "trap")
            return f
        from . import simd
        return simd.resolve(n)

    def ovf(kind):
        def f(ex, st, fr, ins, a):
            x, y = a
            w = x.w
            if kind == 0:
                r = add(x, y)
                return [r, ult(r, x)]
            if kind == 1:
                return [sub(x, y), ult(x, y)]
            if kind == 2:
                if x.op == "c":
                    x, y = y, x
                if y.op == "c" and x.op != "c" and cv(y):
                    return [mul(x, y), ult(const(ONES[w] // cv(y), w), x)]
                d = mul(zext(x, 2 * w), zext(y, 2 * w))
                if umax(x) * umax(y) <= ONES[w]:
                    o = FALSE
                else:
                    o = not_(eq(ext(d, w, w), const(0, w)))
                return [mul(x, y), o]
            e = lambda t: sext(t, 2 * w)
            d = {3: add, 4: sub, 5: mul}[kind](e(x), e(y))
            r = {3: add, 4: sub, 5: mul}[kind](x, y)
            return [r, not_(eq(d, e(r)))]
        return f

    # --- the harness interface (vf.h) -------------------------------------------------------
    def inp(n, w):
        def f(ex, st, fr, ins, a):
            st.nv += 1
            t = var("in%d_%s" % (st.nv, n), w)
            st.inputs.append((n, t))
            return t
        return f
    B["@vf_u8"] = inp("u8", 8)
    B["@vf_u16"] = inp("u16", 16)
    B["@vf_u32"] = inp("u32", 32)
    B["@vf_u64"] = inp("u64", 64)
    B["@vf_double"] = inp("dbl", 64)

    @reg("vf_posdouble")
    def _(ex, st, fr, ins, a):
        lo, hi = (d2f(cv(x)) for x in a)
        assert 0 < lo <= hi
        t = B["@vf_double"](ex, st, fr, ins, a)
        ex.pos[t] = (lo, hi)
        return t

    @reg("vf_lindouble")
    def _(ex, st, fr, ins, a):
        ex.lin = True
        return B["@vf_posdouble"](ex, st, fr, ins, a)

    @reg("vf_must")
    def _(ex, st, fr, ins, a):
        v = ex.proved(st, boolarg(a[0]))
        st.inputs.append(("u8", const(int(v), 8)))
        return const(int(v), 32)

    @reg("vf_same")
    def _(ex, st, fr, ins, a):
        v = same(ex, st, *a)
        st.inputs.append(("u8", const(int(v), 8)))
        return const(int(v), 32)

    def same(ex, st, p, q, n):
        zlen(ex, st, n)
        if ex.known(st, eq(n, const(0, 64))):
            return True
        if n.op == "c" and cv(n) <= ex.cellmax:
            o1, f1 = ex.resolve(st, p, n, False, "read")
            o2, f2 = ex.resolve(st, q, n, False, "read")
            for i in range(cv(n)):
                x, y = (ex.loadat(st, o, add(f, const(i, 64)), 1) for o, f in ((o1, f1), (o2, f2)))
                if x is not y and not ex.proved(st, eq(x, y)):
                    return False
            return True
        s2 = st.clone()
        r1, r2 = ex.reader(s2, p, n), ex.reader(s2, q, n)
        st.nv += 1
        W = var("wit%d" % st.nv, 64)
        ex.assume(s2, ult(W, n))
        return same_at(ex, s2, r1, r2, W)

    def same_at(ex, s2, r1, r2, W):
        return ex.proved(s2, eq(r1(ex, s2, W), r2(ex, s2, W)))

    @reg("vf_watch_secrets")
    def _(ex, st, fr, ins, a):
        st.notes["watch"] = cv(a[0]) != 0

    @reg("vf_secret")
    def _(ex, st, fr, ins, a):
        return B["@vf_array"](ex, st, fr, ins, a, "secret")

    @reg("vf_array")
    def _(ex, st, fr, ins, a, kind="arr"):
        # n symbolic bytes; n may be symbolic
        zlen(ex, st, a[1])
        if a[1].op == "c" and cv(a[1]) == 0 or a[1].op != "c" and ex.known(st, eq(a[1], const(0, 64))):
            st.inputs.append(("arr", "none"))
            return None
        st.nv += 1
        name = "%s%d" % (kind, st.nv)
        st.inputs.append(("arr", name))
        if a[1].op == "c" and cv(a[1]) <= 512:
            o, off = ex.resolve(st, a[0], a[1], True, "write")
            if off.op == "c":
                o = st.wobj(o.slot)
                for i in range(cv(a[1])):
                    o.cells[cv(off) + i] = (uf(name, (const(i, 64),), 8), 0)
                return None
        o, off = ex.resolve(st, a[0], a[1], True, "write")
        o = st.wobj(o.slot)
        ex.pushrange(o, off, a[1], lambda ex, s, i: uf(name, (i,), 8))
        return None

    def boolarg(t):
        return not_(eq(t, const(0, t.w)))

    def msg(ex, st, p):
        o, off = ex.resolve(st, p, 1, False)
        s = ""
        k = cv(off)
        while True:
            b = ex.loadat(st, o, const(k, 64), 1)
            if b.op != "c" or cv(b) == 0 or len(s) > 200:
                return s
            s += chr(cv(b))
            k += 1

    @reg("vf_sym_assert")
    def _(ex, st, fr, ins, a):
        if DBG and boolarg(a[0]).op != "c" and boolarg(a[0]) not in st.facts:
            print("ASSERT", msg(ex, st, a[1]), repr(boolarg(a[0]))[:3000])
            if DBG == "2":
                import sys
                sys.path.insert(0, "/verif/tools")
                import termdiff
                b = boolarg(a[0])
                termdiff.diff(*b.args)
                sys.exit(1)
        ex.obligation(st, boolarg(a[0]), "assert", msg(ex, st, a[1]))
        ex.assume(st, boolarg(a[0]))

    @reg("vf_sym_assume")
    def _(ex, st, fr, ins, a):
        ex.assume(st, boolarg(a[0]))

    @reg("vf_sym_reach")
    def _(ex, st, fr, ins, a):
        ex.reached.add(msg(ex, st, a[0]))

    @reg("vf_sym_stop")
    def _(ex, st, fr, ins, a):
        raise X.PathEnd()

    @reg("vf_fork")
    def _(ex, st, fr, ins, a):
        """make a condition concrete on this path"""
        c = boolarg(a[0])
        if c.op == "c":
            return zext(c, 32)
        if c in st.facts:
            return const(1, 32)
        if not_(c) in st.facts:
            return const(0, 32)
        raise X.ForkRetry(c)

    @reg("vf_concrete")
    def _(ex, st, fr, ins, a):
        """split on every value of the argument"""
        t = a[0]
        if t.op == "c":
            return t
        v = const(ex.ensure_model(st).ev(t), t.w)
        k = ex.known(st, eq(t, v))
        if k:
            return v
        raise X.ForkRetry(eq(t, v))

    @reg("vf_assert_same")
    def _(ex, st, fr, ins, a):
        p, q, n, m = a
        m = msg(ex, st, m)
        zlen(ex, st, n)
        if ex.known(st, eq(n, const(0, 64))):
            return None
        if n.op == "c" and cv(n) <= ex.cellmax:
            k = cv(n)
            o1, f1 = ex.resolve(st, p, n, False, "read")
            o2, f2 = ex.resolve(st, q, n, False, "read")
            bad = []
            i = 0
            while i < k:
                w = min(4, k - i)
                x = ex.loadat(st, o1, add(f1, const(i, 64)), w)
                y = ex.loadat(st, o2, add(f2, const(i, 64)), w)
                ex.stats["obligations"] += 1
                if x is y:
                    ex.stats["syntactic"] += 1
                else:
                    bad.append((x, y))
                i += w
            if bad:
                prove_equal(ex, st, bad, m)
            return None
        r1, r2 = ex.reader(st, p, n), ex.reader(st, q, n)
        st.nv += 1
        W = var("wit%d" % st.nv, 64)
        s2 = st.clone()
        ex.assume(s2, ult(W, n))
        x, y = r1(ex, s2, W), r2(ex, s2, W)
        if DBG and x is not y:
            print("SAME", m, "\n  x", repr(x)[:1500], "\n  y", repr(y)[:1500], "\n n", n)
        ex.obligation(s2, eq(x, y), "assert", m)
        return None

    def prove_equal(ex, st, pairs, m):
        from . import sweep
        left = sweep.reduce_pairs(ex, st, pairs)
        for x, y in left:
            ex.obligation(st, eq(x, y), "assert", m)

    @reg("vf_xorpad")
    def _(ex, st, fr, ins, a):
        d, s, n, pad = a
        zlen(ex, st, n)
        if ex.known(st, eq(n, const(0, 64))):
            return None
        r1, r2 = ex.reader(st, s, n), ex.reader(st, pad, n)
        o, off = ex.resolve(st, d, n, True, "write")
        o = st.wobj(o.slot)
        ex.pushrange(o, off, n, lambda e, s, i: xor(r1(e, s, i), r2(e, s, i)))
        return None

    @reg("vf_sbox")
    def _(ex, st, fr, ins, a):
        from . import simd
        return simd.sbox(ext(a[0], 0, 8))

    @reg("vf_xtime")
    def _(ex, st, fr, ins, a):
        from . import simd
        return simd.xtime(ext(a[0], 0, 8))

    @reg("vf_symbolic")
    def _(ex, st, fr, ins, a):
        return const(0 if a[0].op == "c" else 1, 32)

    @reg("vf_uf")
    def _(ex, st, fr, ins, a):
        """vf_uf(name, out, outwords32, in, inlen): out = F(in), an uninterpreted function"""
        nm = "uf_" + msg(ex, st, a[0])
        n = cv(a[4])
        x = ex.load(st, a[3], n)
        name = "%s_%d" % (nm, n)
        for i in range(cv(a[2])):
            ex.store(st, add(a[1], const(4 * i, 64)), uf("%s_%d" % (name, i), (x,), 32))
        return None

    @reg("vf_heap_live")
    def _(ex, st, fr, ins, a):
        return const(sum(1 for o in st.mem.values() if o.kind == "heap" and not o.freed), 32)

    @reg("vf_is_freed")
    def _(ex, st, fr, ins, a):
        o = st.mem.get(cv(a[0]) >> X.SB)
        return const(1 if o is None or o.freed else 0, 32)

    @reg("vf_obj_size")
    def _(ex, st, fr, ins, a):
        o = st.mem.get(cv(a[0]) >> X.SB)
        return o.size if o is not None and not o.freed else const(0, 64)

    @reg("__assert_fail")
    def _(ex, st, fr, ins, a):
        ex.report(st, "assert", "assertion failed: " + msg(ex, st, a[0]), ex.ensure_model(st))
        raise X.Violation("assert", "assert")

    @reg("__errno_location")
    def _(ex, st, fr, ins, a):
        e = st.notes.get("errno")
        if e is None:
            e = ex.alloc(st, 4, "world", "errno", "zero")
            st.notes["errno"] = e
        return e

    # --- allocation -------------------------------------------------------------------------
    @reg("malloc", "vf_sym_malloc")
    def _(ex, st, fr, ins, a):
        return ex.alloc(st, a[0], "heap", "malloc")

    @reg("aligned_alloc")
    def _(ex, st, fr, ins, a):
        return ex.alloc(st, a[1], "heap", "aligned_alloc", align=cv(a[0]))

    @reg("calloc")
    def _(ex, st, fr, ins, a):
        return ex.alloc(st, mul(a[0], a[1]), "heap", "calloc", default="zero")

    @reg("free", "vf_sym_free")
    def _(ex, st, fr, ins, a):
        p = a[0]
        if p.op != "c":
            p = ex.decide(st, p)
        if p.op != "c":
            z = eq(p, const(0, 64))
            if ex.known(st, z) is None:
                raise X.ForkRetry(z)
            if ex.known(st, z):
                return None
            raise X.Inconclusive("free of a symbolic pointer")
        if cv(p) == 0:
            return None
        o = st.mem.get(cv(p) >> X.SB)
        if o is None or o.kind != "heap" or cv(p) != o.base or o.freed:
            what = "double free" if o is not None and o.freed else "free of an invalid pointer"
            ex.report(st, "memory", what, ex.ensure_model(st))
            raise X.Violation("memory", what)
        o = st.wobj(o.slot)
        o.freed = True
        ex.released(st, o)
        return None

    @reg("realloc")
    def _(ex, st, fr, ins, a):
        raise X.Inconclusive("realloc")

    # --- variable arguments -----------------------------------------------------------------
    @reg("llvm.va_start", "llvm.va_start.p0")
    def _(ex, st, fr, ins, a):
        # the va_list of the x86-64 ABI: {gp_offset, fp_offset, overflow_arg_area, reg_save_area}
        save = ex.alloc(st, 176, "stack", fr.fn.name + ":reg_save_area")
        gp = fp = 0
        for t, n in fr.fn.params:
            if t.k in ("double", "float"):
                fp += 1
            else:
                gp += 1
        gp0, fp0 = min(gp, 6), min(fp, 8)
        gp, fp = gp0, fp0
        rest = []
        for t, v in fr.va:
            if t.k in ("double", "float"):
                if fp < 8:
                    ex.store(st, add(save, const(48 + 16 * fp, 64)), v)
                    fp += 1
                    continue
            else:
                if v.w < 64:
                    v = zext(v, 64)
                if gp < 6:
                    ex.store(st, add(save, const(8 * gp, 64)), v)
                    gp += 1
                    continue
            rest.append(v)
        over = ex.alloc(st, max(8, 8 * len(rest)), "stack", fr.fn.name + ":overflow_arg_area")
        for k, v in enumerate(rest):
            ex.store(st, add(over, const(8 * k, 64)), v)
        fr.allocas += [cv(save) >> X.SB, cv(over) >> X.SB]
        ap = a[0]
        ex.store(st, ap, const(8 * gp0, 32))
        ex.store(st, add(ap, const(4, 64)), const(48 + 16 * fp0, 32))
        ex.store(st, add(ap, const(8, 64)), over)
        ex.store(st, add(ap, const(16, 64)), save)
        return None

    @reg("llvm.va_copy", "llvm.va_copy.p0")
    def _(ex, st, fr, ins, a):
        for k in range(0, 24, 8):
            ex.store(st, add(a[0], const(k, 64)), ex.load(st, add(a[1], const(k, 64)), 8))
        return None

    from . import fmt
    fmt.install(ex, reg, msg)

    ex.builtins = Disp(B)
