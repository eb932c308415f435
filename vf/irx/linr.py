"""Doubles as reals: scaling by constants, comparison, conversion from and to integers.

Multiplication or division by a power of two is exact (no overflow or underflow: checked with interval bounds), by
another constant it has a relative error of at most 2^-53; integers below 2^53 convert exactly; conversion to an integer
truncates.  The product of two unknowns is one more unknown.  Everything not of this form is unconstrained, so only
unsatisfiability is concluded.
"""
from fractions import Fraction
import math
import z3
from .terms import ONES, cv, d2f, f2d, umax, umin, not_, eq, const
from .logr import isfp, fpname, hasfp

E53 = Fraction(1, 2 ** 52)


def ispow2(v):
    return v > 0 and v != math.inf and math.frexp(v)[0] == 0.5


def scale(x, c):
    return x if x == math.inf else float(Fraction(x) * c)


class Lin:
    def __init__(self, pos, timeout=10):
        self.s = z3.Solver()
        self.s.set("timeout", int(timeout * 1000))
        self.pos = pos
        self.R, self.I, self.B = {}, {}, {}
        self.n = 0
        self.rvars, self.ivars, self.prods = {}, {}, {}

    def fresh(self, lo, hi):
        self.n += 1
        x = z3.Real("r%d" % self.n)
        self.s.add(x >= z3.RealVal(Fraction(lo)), x <= z3.RealVal(Fraction(hi)))
        return x

    def real(self, t):
        """(expression, least and greatest non-zero value, not zero) for a double known to be zero or positive and normal, or None"""
        if t not in self.R:
            r = self._real(t)
            if r is not None and not (r[2] < 1e300 and r[1] > 1e-290):
                r = None
            self.R[t] = r
        return self.R[t]

    def approx(self, x, c):
        """the double nearest to c * x"""
        lo, hi = scale(x[1], c) * (1 - 1e-12), scale(x[2], c) * (1 + 1e-12)
        y = self.fresh(0, hi)
        self.s.add(y <= x[0] * z3.RealVal(c * (1 + E53)), y >= x[0] * z3.RealVal(c * (1 - E53)))
        return y, lo, hi, x[3]

    def _real(self, t):
        if t.op == "c":
            v = d2f(cv(t))
            return (z3.RealVal(Fraction(v)), v or math.inf, v, v > 0) if 0 <= v < math.inf else None
        if t in self.pos:
            lo, hi = self.pos[t]
            x = self.fresh(lo, hi)
            self.rvars[t] = x
            return x, lo, hi, True
        if t.op == "ite":
            a, b = self.real(t.args[1]), self.real(t.args[2])
            if a is None or b is None:
                return None
            return z3.If(self.bool(t.args[0]), a[0], b[0]), min(a[1], b[1]), max(a[2], b[2]), a[3] and b[3]
        if not isfp(t):
            return None
        op = fpname(t)
        if op in ("fmul", "fdiv"):
            a, b = self.real(t.args[1]), self.real(t.args[2])
            if a is None or b is None:
                return None
            if op == "fmul" and t.args[1].op == "c":
                a, b = b, a
            if b[1] == b[2] > 0 and b[3]:
                v = b[1]
                c = Fraction(v) if op == "fmul" else 1 / Fraction(v)
                if ispow2(v):
                    return a[0] * z3.RealVal(c), scale(a[1], c), scale(a[2], c), a[3]
                return self.approx(a, c)
            if not b[3] or not a[3]:
                return None
            lo, hi = (a[1] * b[1], a[2] * b[2]) if op == "fmul" else (a[1] / b[2], a[2] / b[1])
            x = self.fresh(lo * (1 - 1e-9), hi * (1 + 1e-9))
            if op == "fmul" and t.args[1] in self.pos and t.args[2] in self.pos:
                self.prods[t] = x
            return x, lo * (1 - 1e-9), hi * (1 + 1e-9), True
        if op in ("u2f", "s2f"):
            y = t.args[1]
            if op == "s2f" and umax(y) >> (y.w - 1):
                return None
            a = self.int(y)
            if a is None:
                return None
            hi = float(umax(y)) * (1 + 1e-12)
            if umax(y) < 1 << 53:
                return z3.ToReal(a), 1.0, hi, umin(y) > 0
            x = self.fresh(0, hi)
            r = z3.ToReal(a)
            self.s.add(x <= r * z3.RealVal(1 + E53), x >= r * z3.RealVal(1 - E53), z3.Implies(a <= 1 << 53, x == r))
            for k in range(53, umax(y).bit_length() + 1):
                # monotone, and powers of two are exact
                self.s.add(z3.Implies(a >= 1 << k, x >= 1 << k), z3.Implies(a <= 1 << k, x <= 1 << k))
            return x, 0.5, hi, umin(y) > 0
        return None

    def int(self, t):
        if t not in self.I:
            self.I[t] = self._int(t)
        return self.I[t]

    def ivar(self, t, named=True):
        self.n += 1
        x = z3.Int("i%d" % self.n)
        self.s.add(x >= 0, x <= umax(t))
        if named:
            self.ivars[t] = x
        return x

    def _int(self, t):
        op = t.op
        if op == "c":
            return z3.IntVal(t.args[0])
        if op == "cat":
            r, sh = 0, 0
            for p in reversed(t.args):
                a = self.int(p)
                r = r + a * (1 << sh)
                sh += p.w
            return r
        if op == "ite":
            a, b = self.int(t.args[1]), self.int(t.args[2])
            return z3.If(self.bool(t.args[0]), a, b)
        if op == "add" and all(k >> (t.w - 1) == 0 for k, _ in t.args[1]) and t.args[0] + sum(k * umax(x) for k, x in t.args[1]) <= ONES[t.w]:
            r = z3.IntVal(t.args[0])
            for k, x in t.args[1]:
                r = r + k * self.int(x)
            return r
        if op == "add":
            m = 1 << t.w
            c = t.args[0] - (m if t.args[0] >> (t.w - 1) else 0)
            r = z3.IntVal(c)
            for k, x in t.args[1]:
                r = r + (k - (m if k >> (t.w - 1) else 0)) * self.int(x)
            self.n += 1
            q = z3.Int("q%d" % self.n)
            x = self.ivar(t, False)
            self.s.add(x + q * m == r)
            return x
        if op == "ext":
            a, lo = t.args
            x = self.ivar(t, False)
            b = self.int(a)
            if a.w == lo + t.w:
                self.s.add(x * (1 << lo) <= b, b < (x + 1) * (1 << lo))
            else:
                h = self.ivar(t, False)
                self.s.add(h >= 0)
                l = self.ivar(t, False) if lo else None
                self.s.add(b == h * (1 << (lo + t.w)) + x * (1 << lo) + (l if lo else 0))
                if lo:
                    self.s.add(l < 1 << lo)
            return x
        if op == "udiv" and t.args[1].op == "c" and cv(t.args[1]):
            d = cv(t.args[1])
            x = self.ivar(t, False)
            b = self.int(t.args[0])
            self.s.add(x * d <= b, b < (x + 1) * d)
            return x
        if isfp(t) and fpname(t) in ("f2u", "f2s"):
            y = self.real(t.args[1])
            x = self.ivar(t, False)
            if y is not None:
                lim = 1 << (t.w if fpname(t) == "f2u" else t.w - 1)
                xr = z3.ToReal(x)
                self.s.add(z3.Implies(y[0] < lim, z3.And(xr <= y[0], y[0] < xr + 1)))
            return x
        return self.ivar(t, op == "v")

    def bool(self, t):
        r = self.B.get(t)
        if r is None:
            r = self.B[t] = self._bool(t)
        return r

    def _bool(self, t):
        op, a = t.op, t.args
        if op == "c":
            return z3.BoolVal(bool(a[0]))
        if op == "not":
            return z3.Not(self.bool(a[0]))
        if op == "and":
            return z3.And([self.bool(x) for x in a])
        if op == "or":
            return z3.Or([self.bool(x) for x in a])
        if op == "ite":
            return z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        if isfp(t):
            p = fpname(t)
            if p in ("fcmp_olt", "fcmp_ole", "fcmp_oeq", "fcmp_uno"):
                x, y = self.real(a[1]), self.real(a[2])
                if x is not None and y is not None:
                    x, y = x[0], y[0]
                    return {"fcmp_olt": x < y, "fcmp_ole": x <= y, "fcmp_oeq": x == y, "fcmp_uno": z3.BoolVal(False)}[p]
                if p in ("fcmp_olt", "fcmp_ole"):
                    if y is not None and a[1].op == "c" and d2f(cv(a[1])) < 0:
                        return z3.BoolVal(True)
                    if x is not None and a[2].op == "c" and d2f(cv(a[2])) < 0:
                        return z3.BoolVal(False)
        elif op == "ult" and a[0].w <= 64:
            return self.int(a[0]) < self.int(a[1])
        elif op == "eq" and 1 < a[0].w <= 64:
            return self.int(a[0]) == self.int(a[1])
        return z3.Bool("b%d" % t.id)


def check(pc, extra, pos, timeout=10):
    L = Lin(pos, timeout)
    for c in list(extra) + list(pc):
        L.s.add(L.bool(c))
    return L.s.check(), L


def refine(pc, extra, pos):
    """equalities on the inputs from a model over the reals, or None"""
    r, L = check(pc, extra, pos)
    if r != z3.sat:
        return None
    m = L.s.model()
    eqs = []
    for t, x in L.ivars.items():
        v = m.eval(x, model_completion=True)
        if z3.is_int_value(v):
            eqs.append(eq(t, const(v.as_long(), t.w)))
    def val(x):
        v = m.eval(x, model_completion=True)
        return float(v.as_fraction() if z3.is_rational_value(v) else v.approx(30).as_fraction())
    vals = {}
    for t, x in L.prods.items():
        # the factors of a product: one of them a power of two
        a, b = t.args[1:]
        v = val(x)
        for k in sorted(range(-60, 61), key=abs):
            q = 2.0 ** k
            for y, z in ((a, b), (b, a)):
                if y not in vals and z not in vals and pos[y][0] <= q <= pos[y][1] and pos[z][0] <= v / q <= pos[z][1]:
                    vals[y], vals[z] = q, v / q
    for t, x in L.rvars.items():
        lo, hi = pos[t]
        eqs.append(eq(t, const(f2d(vals.get(t, max(lo, min(hi, val(x))))), 64)))
    return eqs
