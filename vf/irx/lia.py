"""Integer relaxation of bit-vector constraints.

Every bit-vector term becomes an integer in [0, 2^w); sums carry an explicit wrap count, so linear constraints
are translated exactly; everything else becomes a fresh integer or Boolean.  The translation over-approximates, so
an unsatisfiable translation proves the bit-vector constraints unsatisfiable.  (Nothing is concluded otherwise.)
"""
import z3
import os
DBG = os.environ.get('IRX_LIA')
from .terms import ONES, subterms, umax, umin, order


def useful(t):
    """does a constraint say anything linear about a word?"""
    if t.w != 1:
        return False
    if t.op in ("and", "or"):
        return any(useful(a) for a in t.args)
    if t.op in ("not", "ite"):
        return all(useful(a) for a in t.args)
    return t.op in ("ult", "slt") or (t.op == "eq" and t.args[0].w > 8)


def leaves(t, memo):
    r = memo.get(t)
    if r is None:
        if t.op == "v" or t.op == "uf":
            r = frozenset((t,))
        else:
            r = frozenset().union(*[leaves(x, memo) for x in subterms(t)]) if subterms(t) else frozenset()
        memo[t] = r
    return r


class Lia:
    memo = {}

    def __init__(self, timeout):
        self.s = z3.Solver()
        self.s.set("timeout", int(timeout * 1000))
        self.i, self.b, self.ub = {}, {}, {}

    def fresh(self, t, k="i"):
        return z3.Int("%s%d" % (k, t.id))

    def num(self, t):
        r = self.i.get(t)
        if r is None:
            r = self.i[t] = self._num(t)
        return r

    def _num(self, t):
        op, w, s = t.op, t.w, self.s
        if op == "c":
            return z3.IntVal(t.args[0])
        if w == 1:
            return z3.If(self.bool(t), z3.IntVal(1), z3.IntVal(0))
        if op == "add":
            e = z3.IntVal(t.args[0] if t.args[0] < 1 << (w - 1) else t.args[0] - (1 << w))
            lo = hi = t.args[0] if t.args[0] < 1 << (w - 1) else t.args[0] - (1 << w)
            for k, x in t.args[1]:
                kk = k if k < 1 << (w - 1) else k - (1 << w)
                e = e + kk * self.num(x)
                a, b = kk * umin(x), kk * min(umax(x), self.ub.get(x, ONES[x.w]))
                lo, hi = lo + min(a, b), hi + max(a, b)
            if lo < 0 or hi > ONES[w]:
                q = self.fresh(t, "q")
                v = self.fresh(t)
                s.add(v == e - (1 << w) * q, q >= lo >> w, q <= hi >> w)
                s.add(v >= 0, v <= ONES[w])
                return v
            v = self.fresh(t)
            s.add(v == e)
            return v
        if op == "cat":
            e, pos = z3.IntVal(0), w
            for p in t.args:
                pos -= p.w
                e = e + (1 << pos) * self.num(p)
            return e
        if op == "ite":
            return z3.If(self.bool(t.args[0]), self.num(t.args[1]), self.num(t.args[2]))
        v = self.fresh(t)
        s.add(v >= umin(t), v <= umax(t))
        if op == "ext":
            x, lo = t.args
            h, l = self.fresh(t, "h"), self.fresh(t, "l")
            s.add(h >= 0, l >= 0, l < 1 << lo, self.num(x) == (1 << (lo + w)) * h + (1 << lo) * v + l)
        elif op == "udiv" and t.args[1].op == "c" and t.args[1].args[0]:
            c, x = t.args[1].args[0], self.num(t.args[0])
            s.add(c * v <= x, x < c * v + c)
        return v

    def bool(self, t):
        r = self.b.get(t)
        if r is None:
            r = self.b[t] = self._bool(t)
        return r

    def _bool(self, t):
        op, a = t.op, t.args
        if op == "c":
            return z3.BoolVal(bool(a[0]))
        if op == "not":
            return z3.Not(self.bool(a[0]))
        if op == "and":
            return z3.And([self.bool(x) for x in a])
        if op == "or":
            return z3.Or([self.bool(x) for x in a])
        if op == "ite":
            return z3.If(self.bool(a[0]), self.bool(a[1]), self.bool(a[2]))
        if op == "eq":
            return self.num(a[0]) == self.num(a[1])
        if op == "ult":
            return self.num(a[0]) < self.num(a[1])
        if op == "slt" and umax(a[0]) < 1 << (a[0].w - 1) and umax(a[1]) < 1 << (a[1].w - 1):
            return self.num(a[0]) < self.num(a[1])
        return z3.Bool("b%d" % t.id)


def unsat(pc, extra, timeout=5):
    """True when the integer relaxation of the relevant constraints has no solution"""
    if not all(useful(e) for e in extra):
        return False
    cs = [c for c in pc if useful(c)]
    want = set()
    for e in extra:
        want |= leaves(e, Lia.memo)
    picked, rest, more = [], cs, True
    while more:
        more, left = False, []
        for c in rest:
            l = leaves(c, Lia.memo)
            if l & want:
                want |= l
                picked.append(c)
                more = True
            else:
                left.append(c)
        rest = left
    L = Lia(timeout)
    for c in picked + list(extra):
        # plain upper bounds make most wrap counts vanish
        n = c.op == "not"
        d = c.args[0] if n else c
        if d.op == "ult":
            x, y = (d.args[1], d.args[0]) if n else d.args
            if y.op == "c" and x.op not in ("c", "add"):
                L.ub[x] = min(L.ub.get(x, ONES[x.w]), y.args[0] - (0 if n else 1))
    for c in list(extra) + picked:
        L.s.add(L.bool(c))
    r = L.s.check()
    if DBG and r != z3.unsat:
        print("LIA", r, L.s.reason_unknown() if r == z3.unknown else L.s.model())
        print(L.s.sexpr()[:3000])
    return r == z3.unsat
