"""Products, quotients and comparisons of positive doubles, decided in the logarithm.

For a positive value x let L(x) = log2(x), a real.  IEEE multiplication and division of normal doubles satisfy
L(x op y) = L(x) +- L(y) + e with |e| <= 2^-52 (one rounding, no overflow or underflow: checked with interval bounds);
operations by a power of two are exact; comparison is monotone.  So constraints over such values become linear real
arithmetic.  Everything not of this form becomes unconstrained, so only unsatisfiability is concluded.
"""
from fractions import Fraction
import math
import z3
from .terms import ONES, cv, d2f, f2d, order, umax, umin, not_, eq, const, mul, zext

EPS = z3.RealVal(Fraction(1, 2 ** 52))


def isfp(t):
    return t.op == "uf" and t.args[0].startswith("fpa_")


def fpname(t):
    return t.args[0][4:].rsplit("_", 2)[0]


def hasfp(ts, memo={}):
    r = False
    for t in ts:
        if t not in memo:
            for x in order([t], memo):
                memo[x] = isfp(x) or any(memo.get(y, False) for y in (x.args[1:] if x.op == "uf" else [y for _, y in x.args[1]] if x.op == "add" else [] if x.op in ("c", "v") else x.args[:1] if x.op == "ext" else x.args))
        r = r or memo[t]
    return r


class Facts:
    """what is known of integer terms on this path"""
    def __init__(self, facts):
        self.facts = facts

    def __call__(self, t):
        return not_(eq(t, const(0, t.w))) in self.facts

    def fits(self, t):
        """a product that does not wrap"""
        a, b = t.args
        if umax(a) * umax(b) <= ONES[t.w]:
            return True
        if t.w > 32:
            return False
        m = mul(zext(a, 64), zext(b, 64))
        return any(f.op == "ult" and f.args[0] is m and f.args[1].op == "c" and cv(f.args[1]) <= ONES[t.w] for f in self.facts)


class Log:
    def __init__(self, pos, nonzero, timeout=10, fix=None):
        """pos: term of a positive double input -> (lo, hi); nonzero(t): is an integer term known to be non-zero?"""
        self.s = z3.Solver()
        self.s.set("timeout", int(timeout * 1000))
        self.pos, self.nonzero = pos, nonzero
        self.fix = fix or {}
        self.L, self.B = {}, {}
        self.n = 0

    def fresh(self):
        self.n += 1
        return z3.Real("l%d" % self.n)

    def const(self, v):
        """enclosure of log2 of a positive number"""
        m, e = math.frexp(v)
        if m == 0.5:
            return z3.RealVal(e - 1), float(e - 1), float(e - 1)
        x = self.fresh()
        l = math.log2(v)
        self.s.add(x >= z3.RealVal(Fraction(l) - Fraction(1, 2 ** 44)), x <= z3.RealVal(Fraction(l) + Fraction(1, 2 ** 44)))
        return x, l - 1e-12, l + 1e-12

    def exactpow2(self, t):
        """is the double a power of two?"""
        if t.op == "c":
            v = d2f(cv(t))
            return v > 0 and v != math.inf and math.frexp(v)[0] == 0.5
        if isfp(t) and fpname(t) in ("u2f", "s2f"):
            x = t.args[1]
            return x.op == "c" and cv(x) & (cv(x) - 1) == 0
        return False

    def log(self, t):
        """(expression, lo, hi) or None"""
        if t not in self.L:
            r = self._log(t)
            if r is not None and (r[1] < -1000 or r[2] > 1000):
                r = None
            self.L[t] = r
        return self.L[t]

    def _log(self, t):
        if t.op == "c":
            v = d2f(cv(t))
            return self.const(v) if 0 < v < math.inf else None
        if t in self.fix:
            return self.const(self.fix[t])
        if t in self.pos:
            lo, hi = self.pos[t]
            x = self.fresh()
            lo, hi = math.log2(lo), math.log2(hi)
            self.s.add(x >= z3.RealVal(Fraction(lo)), x <= z3.RealVal(Fraction(hi)))
            self.vars = getattr(self, "vars", {})
            self.vars[t] = x
            return x, lo - 1e-9, hi + 1e-9
        if t.op == "ite":
            a, b = self.log(t.args[1]), self.log(t.args[2])
            if a is None or b is None:
                return None
            x, c = self.fresh(), self.bool(t.args[0])
            self.s.add(z3.Implies(c, x == a[0]), z3.Implies(z3.Not(c), x == b[0]))
            return x, min(a[1], b[1]), max(a[2], b[2])
        if not isfp(t):
            return None
        op = fpname(t)
        if op in ("fmul", "fdiv"):
            a, b = self.log(t.args[1]), self.log(t.args[2])
            if a is None or b is None:
                return None
            x = self.fresh()
            e = a[0] + b[0] if op == "fmul" else a[0] - b[0]
            if self.exactpow2(t.args[2]) or op == "fmul" and self.exactpow2(t.args[1]):
                self.s.add(x == e)
            else:
                self.s.add(x - e <= EPS, e - x <= EPS)
            if op == "fmul":
                return x, a[1] + b[1] - 1e-9, a[2] + b[2] + 1e-9
            return x, a[1] - b[2] - 1e-9, a[2] - b[1] + 1e-9
        if op in ("u2f", "s2f"):
            y = t.args[1]
            if op == "s2f" and umax(y) >> (y.w - 1):
                return None
            a = self.ilog(y)
            if a is None or umax(y) < 1 << 53:
                return a
            x = self.fresh()
            self.s.add(x - a[0] <= EPS, a[0] - x <= EPS)
            return x, a[1] - 1e-9, a[2] + 1e-9
        return None

    def ilog(self, t):
        """logarithm of a positive integer term"""
        k = ("i", t)
        if k not in self.L:
            self.L[k] = self._ilog(t)
        return self.L[k]

    def _ilog(self, t):
        if t.op == "c":
            v = t.args[0]
            return self.const(float(v)) if v and float(v) == v else None
        if t in self.fix:
            return self.const(self.fix[t])
        if t.op == "cat" and t.args[0].op == "c" and cv(t.args[0]) == 0 and len(t.args) == 2:
            return self.ilog(t.args[1])
        if t.op == "mul" and self.nonzero.fits(t):
            a, b = self.ilog(t.args[0]), self.ilog(t.args[1])
            if a and b:
                return a[0] + b[0], a[1] + b[1], a[2] + b[2]
        if not (umin(t) > 0 or self.nonzero(t)):
            return None
        if t.op == "add" and t.args[0] == 0 and len(t.args[1]) == 1 and t.args[1][0][0] * umax(t.args[1][0][1]) <= ONES[t.w]:
            a = self.ilog(t.args[1][0][1])
            if a:
                c = self.const(float(t.args[1][0][0]))
                return a[0] + c[0], a[1] + c[1], a[2] + c[2]
        if t.op == "cat" and t.args[-1].op == "c" and cv(t.args[-1]) == 0 and len(t.args) == 2:
            a = self.ilog(t.args[0])
            if a:
                s = t.args[-1].w
                return a[0] + s, a[1] + s, a[2] + s
        x = self.fresh()
        hi = math.log2(umax(t)) if umax(t) else 0
        self.s.add(x >= 0, x <= z3.RealVal(Fraction(hi) + Fraction(1, 2 ** 40)))
        self.ivars = getattr(self, "ivars", {})
        self.ivars[t] = x
        return x, 0.0, hi + 1e-9

    def cmp(self, a, b, strict):
        """a < b or a <= b over doubles, as a formula over-approximated by None"""
        x, y = self.log(a), self.log(b)
        if x is not None and y is not None:
            return x[0] < y[0] if strict else x[0] <= y[0]
        if y is not None and a.op == "c" and d2f(cv(a)) <= 0:
            return z3.BoolVal(True)
        if x is not None and b.op == "c" and d2f(cv(b)) <= 0:
            return z3.BoolVal(False)
        return None

    def bool(self, t):
        r = self.B.get(t)
        if r is None:
            r = self.B[t] = self._bool(t)
        return r

    def _bool(self, t):
        op, a = t.op, t.args
        if op == "c":
            return z3.BoolVal(bool(a[0]))
        if op == "not":
            return z3.Not(self.bool(a[0]))
        if op == "and":
            return z3.And([self.bool(x) for x in a])
        if op == "or":
            return z3.Or([self.bool(x) for x in a])
        if op == "ite":
            return z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        r = None
        if isfp(t):
            p = fpname(t)
            if p == "fcmp_olt":
                r = self.cmp(a[1], a[2], True)
            elif p == "fcmp_ole":
                r = self.cmp(a[1], a[2], False)
            elif p == "fcmp_uno" and self.log(a[1]) is not None and self.log(a[2]) is not None:
                r = z3.BoolVal(False)
        elif op == "ult":
            x, y = self.ilog(a[0]), self.ilog(a[1])
            if x and y:
                r = x[0] < y[0]
        if r is None:
            r = z3.Bool("b%d" % t.id)
        return r


def check(pc, extra, pos, nonzero, timeout=10, fix=None):
    """(verdict, Log)"""
    L = Log(pos, nonzero, timeout, fix)
    for c in list(extra) + [c for c in pc if hasfp([c]) or c.op in ("ult", "not")]:
        L.s.add(L.bool(c))
    return L.s.check(), L


def refine(pc, extra, pos, nonzero, query):
    """a model whose doubles satisfy the constraints (not only the abstraction): list of equalities to assume, or None"""
    r, L = check(pc, extra, pos, nonzero)
    if r != z3.sat:
        return None
    m = L.s.model()

    def val(x):
        v = m.eval(x, model_completion=True)
        return v.as_fraction() if z3.is_rational_value(v) else v.approx(30).as_fraction()
    eqs, fix = [], {}
    for t, x in getattr(L, "ivars", {}).items():
        v = max(1, min(umax(t), round(2.0 ** float(val(x)))))
        e = eq(t, const(v, t.w))
        if query(pc, list(extra) + eqs + [e]) is not None:
            eqs.append(e)
            fix[t] = float(v)
            continue
        # not possible together with the integer constraints: take a value that is
        env = query(pc, list(extra) + eqs)
        v = env.ev(t) if env is not None else 0
        if v > 0:
            eqs.append(eq(t, const(v, t.w)))
            fix[t] = float(v)
    r, L = check(pc, extra, pos, nonzero, fix=fix)
    if r != z3.sat:
        return None
    m = L.s.model()
    for t, x in getattr(L, "vars", {}).items():
        lo, hi = pos[t]
        v = max(lo, min(hi, 2.0 ** float(val(x))))
        eqs.append(eq(t, const(f2d(v), 64)))
    return eqs
