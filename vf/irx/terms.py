"""Hash-consed bit-vector terms in a canonical form, their evaluation and translation to z3."""
import z3

ONES = [(1 << i) - 1 for i in range(0, 2049)]


class T:
    __slots__ = ("op", "args", "w", "id", "_um", "_z", "dep")

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, args, w):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.w = op, args, w
        _n[0] += 1
        t.id = _n[0]
        t._um = None
        t._z = None
        # how deeply additions are nested
        d = 0
        if op == "add":
            for _, x in args[1]:
                if x.dep >= d:
                    d = x.dep + 1
        else:
            for x in args:
                if x.__class__ is T and x.dep > d:
                    d = x.dep
        t.dep = d
        _tab[k] = t
    return t


def const(v, w):
    return mk("c", (v & ONES[w],), w)


TRUE = const(1, 1)
FALSE = const(0, 1)


def var(name, w):
    return mk("v", (name,), w)


def isc(t):
    return t.op == "c"


def cv(t):
    return t.args[0]


def show(t, d=4):
    if t.op == "c":
        return "%#x:%d" % (t.args[0], t.w)
    if t.op == "v":
        return str(t.args[0])
    if d == 0:
        return "#%d" % t.id
    return "(%s%d %s)" % (t.op, t.w, " ".join(showa(a, d - 1) for a in t.args))


def showa(a, d):
    if isinstance(a, T):
        return show(a, d)
    if isinstance(a, tuple):
        return "<" + " ".join(showa(x, d) for x in a) + ">"
    return str(a)


_id = lambda t: t.id


# --- linear sums -----------------------------------------------------------------------------
def _addlin(acc, t, coef, w):
    """acc: [const, {term: coef}]"""
    if t.op == "c":
        acc[0] += coef * t.args[0]
    elif t.op == "add":
        acc[0] += coef * t.args[0]
        d = acc[1]
        for c, x in t.args[1]:
            d[x] = d.get(x, 0) + coef * c
    else:
        if t.op == "cat":
            k, t = splitconst(t)
            acc[0] += coef * k
        d = acc[1]
        d[t] = d.get(t, 0) + coef


def splitconst(t):
    """t = k + the same pieces with constants replaced by zero"""
    k, pos, out = 0, t.w, []
    for p in t.args:
        pos -= p.w
        if p.op == "c" and p.args[0]:
            k |= p.args[0] << pos
            p = const(0, p.w)
        out.append(p)
    return (k, cat(out)) if k else (0, t)


def joinconst(c, t):
    """the inverse: cat pieces with c placed in the zero pieces, or None"""
    pos, out, m = t.w, [], 0
    for p in t.args:
        pos -= p.w
        if p.op == "c":
            if p.args[0]:
                return None
            m |= ONES[p.w] << pos
            p = const(c >> pos, p.w)
        out.append(p)
    return None if c & ~m else cat(out)


def mk_lin(c, d, w):
    m = ONES[w]
    c &= m
    items = [(k & m, x) for x, k in d.items() if k & m]
    if not items:
        return const(c, w)
    if c == 0 and len(items) == 1:
        k, x = items[0]
        if k == 1:
            return x
        if k & (k - 1) == 0:
            return shlc(x, k.bit_length() - 1)
    if len(items) == 1 and items[0][0] == 1 and items[0][1].op == "cat":
        t = joinconst(c, items[0][1])
        if t is not None:
            return t
    if w > 8 and len(items) > 1:
        # disjoint terms: a sum is an exclusive or
        for k, x in items:
            if x.op == "and":
                for k2, y in items:
                    if k2 == k and y is not x and (y.op == "and" or (y.op == "xor" and len(y.args) <= 4)) and disjoint(x, y):
                        d = dict((b, a) for a, b in items if b is not x and b is not y)
                        acc = [c, d]
                        _addlin(acc, xor(x, y), k, w)
                        return mk_lin(acc[0], d, w)
    items.sort(key=lambda p: p[1].id)
    return mk("add", (c, tuple(items)), w)


_dj = {}


def disjoint(x, y):
    r = _dj.get((x, y))
    if r is None:
        s = set(x.args)
        if any(z in s or (z.op == "and" and any(a in s for a in z.args)) for z in y.args):
            r = and_(x, y)
            r = r.op == "c" and r.args[0] == 0
        else:
            r = False
        _dj[(x, y)] = r
    return r


def lin(t):
    if t.op == "c":
        return t.args[0], ()
    if t.op == "add":
        return t.args
    return 0, ((1, t),)


def add(*ts):
    w = ts[0].w
    acc = [0, {}]
    for t in ts:
        _addlin(acc, t, 1, w)
    return mk_lin(acc[0], acc[1], w)


def sub(a, b):
    acc = [0, {}]
    _addlin(acc, a, 1, a.w)
    _addlin(acc, b, -1, a.w)
    return mk_lin(acc[0], acc[1], a.w)


def mulc(t, k):
    k &= ONES[t.w]
    if k and k & (k - 1) == 0 and t.op not in ("add", "c"):
        return shlc(t, k.bit_length() - 1)
    acc = [0, {}]
    _addlin(acc, t, k, t.w)
    return mk_lin(acc[0], acc[1], t.w)


def neg(t):
    return mulc(t, -1)


def mul(a, b):
    if isc(b):
        return mulc(a, cv(b))
    if isc(a):
        return mulc(b, cv(a))
    # constant factors outside, the others in a fixed order
    k, fs, stack = 1, [], [a, b]
    while stack:
        t = stack.pop()
        if t.op == "mul":
            stack += t.args
            continue
        if t.op == "c":
            k *= cv(t)
            continue
        if t.op == "cat" and t.args[-1].op == "c" and cv(t.args[-1]) == 0:
            z = t.args[-1].w
            k <<= z
            u = lshrc(t, z)
            stack.append(u)
            continue
        if t.op == "add" and t.args[0] == 0 and len(t.args[1]) == 1:
            k *= t.args[1][0][0]
            stack.append(t.args[1][0][1])
            continue
        fs.append(t)
    if not fs:
        return const(k, a.w)
    fs.sort(key=_id)
    r = fs[0]
    for t in fs[1:]:
        r = mk("mul", (r, t), a.w)
    return mulc(r, k)


# --- bit structure ---------------------------------------------------------------------------
def pieces(t):
    return t.args if t.op == "cat" else (t,)


def cat(ps):
    """ps: pieces from most to least significant."""
    out = []
    for p in ps:
        for q in pieces(p):
            if out:
                l = out[-1]
                if l.op == "c" and q.op == "c":
                    out[-1] = const((l.args[0] << q.w) | q.args[0], l.w + q.w)
                    continue
                lb, ll = (l.args[0], l.args[1]) if l.op == "ext" else (l, 0)
                qb, ql = (q.args[0], q.args[1]) if q.op == "ext" else (q, 0)
                if lb is qb and ll == ql + q.w:
                    out.pop()
                    out.extend(pieces(ext(lb, ql, l.w + q.w)))
                    continue
            out.append(q)
    if len(out) == 1:
        return out[0]
    return mk("cat", tuple(out), sum(p.w for p in out))


def ext(t, lo, w):
    """bits lo .. lo+w-1"""
    if lo == 0 and w == t.w:
        return t
    op = t.op
    if op == "c":
        return const(t.args[0] >> lo, w)
    if op == "ext":
        return ext(t.args[0], t.args[1] + lo, w)
    if op == "cat":
        out = []
        pos = t.w
        hi = lo + w
        for p in t.args:
            pl = pos - p.w
            a, b = max(lo, pl), min(hi, pos)
            if a < b:
                out.append(ext(p, a - pl, b - a))
            pos = pl
        return cat(out)
    if op == "sext":
        a = t.args[0]
        if lo + w <= a.w:
            return ext(a, lo, w)
        if lo == 0:
            return sext(a, w)
    if lo == 0:
        if op == "add" and t.dep <= 6:
            acc = [t.args[0], {}]
            for k, x in t.args[1]:
                _addlin(acc, ext(x, 0, w), k, w)
            return mk_lin(acc[0], acc[1], w)
        if op == "mul":
            return mul(ext(t.args[0], 0, w), ext(t.args[1], 0, w))
        if op == "xor":
            return xor(*[ext(a, 0, w) for a in t.args])
        if op == "and":
            return and_(*[ext(a, 0, w) for a in t.args])
        if op == "or":
            return or_(*[ext(a, 0, w) for a in t.args])
    if op in ("xor", "and", "or") and any(a.op in ("cat", "c") for a in t.args):
        f = {"xor": xor, "and": and_, "or": or_}[op]
        return f(*[ext(a, lo, w) for a in t.args])
    if op == "ite":
        a, b = t.args[1], t.args[2]
        if a.op in ("c", "cat") and b.op in ("c", "cat"):
            return ite(t.args[0], ext(a, lo, w), ext(b, lo, w))
    return mk("ext", (t, lo), w)


def zext(t, w):
    if w == t.w:
        return t
    if t.op == "add":
        # a sum whose carry out is the same for all values can be formed in the wider type
        c, its = t.args
        lo = hi = c
        for k, x in its:
            if k >> (t.w - 1):
                k -= 1 << t.w
                lo += k * umax(x)
                hi += k * umin(x)
            else:
                lo += k * umin(x)
                hi += k * umax(x)
        if lo >> t.w == hi >> t.w:
            acc = [const((c - ((lo >> t.w) << t.w)) & ONES[w], w)]
            for k, x in its:
                if k >> (t.w - 1):
                    k -= 1 << t.w
                acc.append(mulc(zext(x, w), k & ONES[w]))
            return add(*acc)
    return cat((const(0, w - t.w), t))


def sext(t, w):
    if w == t.w:
        return t
    if t.op == "c":
        v = t.args[0]
        if v >> (t.w - 1):
            v |= ONES[w] ^ ONES[t.w]
        return const(v, w)
    if t.op == "cat" and t.args[0].op == "c" and not (t.args[0].args[0] >> (t.args[0].w - 1)):
        return zext(t, w)
    if t.op == "sext":
        return sext(t.args[0], w)
    if t.w == 1:
        return ite(t, const(-1, w), const(0, w))
    return mk("sext", (t,), w)


def shlc(t, k):
    if k == 0:
        return t
    if k >= t.w:
        return const(0, t.w)
    if t.op == "add":
        return mulc_add(t, k)
    return cat((ext(t, 0, t.w - k), const(0, k)))


def shlv(t, k):
    """t << k for words that are not addresses: always as pieces"""
    if k == 0 or k >= t.w:
        return shlc(t, k)
    return cat((ext(t, 0, t.w - k), const(0, k)))


def mulc_add(t, k):
    acc = [0, {}]
    _addlin(acc, t, 1 << k, t.w)
    return mk_lin(acc[0], acc[1], t.w)


def lshrc(t, k):
    if k == 0:
        return t
    if k >= t.w:
        return const(0, t.w)
    return cat((const(0, k), ext(t, k, t.w - k)))


def rotl(t, k):
    k %= t.w
    return t if k == 0 else cat((ext(t, 0, t.w - k), ext(t, t.w - k, k)))


def rotr(t, k):
    return rotl(t, t.w - k % t.w)


def bounds_of(t):
    out, pos = [], t.w
    for p in t.args:
        pos -= p.w
        out.append(pos)
    return tuple(out)


def _zeropart(t):
    """mask of bits that are known zero"""
    if t.op == "c":
        return ONES[t.w] ^ t.args[0]
    if t.op == "cat":
        m = 0
        for p in t.args:
            m = (m << p.w) | (ONES[p.w] ^ p.args[0] if p.op == "c" else 0)
        return m
    if t.op == "and":
        for a in t.args:
            if a.op == "c":
                return ONES[t.w] ^ a.args[0]
    return 0


def split(t, cuts):
    """pieces of t at the given lower cut positions (descending, last is 0)"""
    out, hi = [], t.w
    for c in cuts:
        out.append(ext(t, c, hi - c))
        hi = c
    return out


def xor(*ts):
    w = ts[0].w
    c = 0
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.op == "c":
            c ^= t.args[0]
        elif t.op == "xor":
            stack.extend(t.args)
        elif t in seen:
            del seen[t]
        else:
            seen[t] = 1
    if not seen:
        return const(c, w)
    cats = {}
    rest = []
    for t in seen:
        if t.op == "cat":
            cats.setdefault(bounds_of(t), []).append(t)
        else:
            rest.append(t)
    merged = []
    again = False
    for b, l in cats.items():
        if len(l) > 1 or (c and not rest and len(cats) == 1):
            cols = zip(*[x.args for x in l])
            cc = split(const(c, w), b) if (c and not rest and len(cats) == 1) else None
            ps = []
            for i, col in enumerate(cols):
                ps.append(xor(*(list(col) + ([cc[i]] if cc else []))))
            if cc:
                c = 0
            merged.append(cat(ps))
            again = True
        else:
            merged.append(l[0])
    out = rest + merged
    if again:
        if len(out) == 1 and c == 0:
            return out[0]
        return xor(*(out + [const(c, w)]))
    if c == 0 and len(out) == 1:
        return out[0]
    out.sort(key=_id)
    if c:
        out.append(const(c, w))
    return mk("xor", tuple(out), w)


def not_(t):
    if t.w == 1:
        if t.op == "c":
            return const(1 - t.args[0], 1)
        if t.op == "not":
            return t.args[0]
        return mk("not", (t,), 1)
    return xor(t, const(-1, t.w))


def maskcat(t, m):
    """t & m as pieces, when m has few runs; otherwise None"""
    runs, hi = [], t.w
    pos = t.w
    cur = None
    for i in range(t.w - 1, -1, -1):
        b = (m >> i) & 1
        if b != cur:
            if cur is not None:
                runs.append((cur, i + 1, hi - i - 1))
            cur, hi = b, i + 1
    runs.append((cur, 0, hi))
    if len(runs) > 9:
        return None
    return cat([ext(t, lo, n) if b else const(0, n) for b, lo, n in runs])


def and_(*ts):
    w = ts[0].w
    c = ONES[w]
    seen = {}
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.op == "c":
            c &= t.args[0]
        elif t.op == "and":
            stack.extend(t.args)
        else:
            seen[t] = 1
    if c == 0:
        return const(0, w)
    if not seen:
        return const(c, w)
    if w == 1:
        out = sorted(seen, key=_id)
        for t in out:
            if not_(t) in seen:
                return FALSE
        return out[0] if len(out) == 1 else mk("and", tuple(out), 1)
    l = list(seen)
    if c != ONES[w]:
        if len(l) == 1:
            r = maskcat(l[0], c)
            if r is not None:
                return r
        else:
            # push the mask into one operand
            r = maskcat(sorted(l, key=_id)[0], c)
            if r is not None:
                return and_(*([r] + sorted(l, key=_id)[1:]))
    cats = [t for t in l if t.op == "cat"]
    if cats and len(l) > 1 and c == ONES[w]:
        b = bounds_of(cats[0])
        if any(p.op == "c" for t in cats for p in t.args) or \
                (len(cats) == len(l) and all(bounds_of(t) == b for t in cats)):
            cuts = sorted({x for t in cats for x in bounds_of(t)}, reverse=True)
            cols = zip(*[split(t, cuts) for t in l])
            return cat([and_(*col) for col in cols])
    # algebraic normal form: distribute over xor when small
    for t in l:
        if t.op == "xor" and len(t.args) <= 6 and len(l) <= 4:
            others = [x for x in l if x is not t]
            if sum(len(x.args) for x in others if x.op == "xor") > 6:
                continue
            if c != ONES[w]:
                others.append(const(c, w))
            return xor(*[and_(*([a] + others)) for a in t.args])
    out = sorted(l, key=_id)
    if c != ONES[w]:
        out.append(const(c, w))
    if len(out) == 1:
        return out[0]
    return mk("and", tuple(out), w)


def or_(*ts):
    w = ts[0].w
    if w == 1:
        seen = {}
        stack = list(ts)
        while stack:
            t = stack.pop()
            if t.op == "c":
                if t.args[0]:
                    return TRUE
            elif t.op == "or":
                stack.extend(t.args)
            else:
                seen[t] = 1
        if not seen:
            return FALSE
        for t in seen:
            if not_(t) in seen:
                return TRUE
        out = sorted(seen, key=_id)
        return out[0] if len(out) == 1 else mk("or", tuple(out), 1)
    r = ts[0]
    for t in ts[1:]:
        r = or2(r, t)
    return r


def or2(a, b):
    w = a.w
    if a is b:
        return a
    if a.op == "c" and b.op == "c":
        return const(a.args[0] | b.args[0], w)
    if (a.op == "c" and a.args[0] == 0):
        return b
    if (b.op == "c" and b.args[0] == 0):
        return a
    za, zb = _zeropart(a), _zeropart(b)
    if za | zb == ONES[w]:
        return merge_disjoint(a, b, za)
    if a.op == "c" or b.op == "c":
        k, t = (a, b) if a.op == "c" else (b, a)
        m = cv(k)
        # constant-one bits: t with those bits replaced
        r = maskcat(t, ONES[w] ^ m)
        if r is not None:
            return or2(r, k) if (_zeropart(r) | (ONES[w] ^ m)) == ONES[w] else xor(r, k)
    na = len(a.args) if a.op == "xor" else 1
    nb = len(b.args) if b.op == "xor" else 1
    if w <= 8 or a.op == "or" or b.op == "or" or na * nb > 24:
        # accumulated differences and the like: the algebraic normal form would explode
        if a.op == "cat" and b.op == "cat" and bounds_of(a) == bounds_of(b):
            return cat([or2(x, y) for x, y in zip(a.args, b.args)])
        l = set(a.args if a.op == "or" else (a,)) | set(b.args if b.op == "or" else (b,))
        return mk("or", tuple(sorted(l, key=_id)), w)
    return xor(a, b, and_(a, b))


def merge_disjoint(a, b, za):
    cuts = {0}
    for t in (a, b):
        if t.op == "cat":
            cuts.update(bounds_of(t))
        else:
            cuts.update(_runs(_zeropart(t), t.w))
    cuts = sorted(cuts, reverse=True)
    out = []
    for p, q in zip(split(a, cuts), split(b, cuts)):
        if p.op == "c" and p.args[0] == 0:
            out.append(q)
        elif q.op == "c" and q.args[0] == 0:
            out.append(p)
        elif p.op == "c" and q.op == "c":
            out.append(const(p.args[0] | q.args[0], p.w))
        else:
            out.append(xor(p, q))
    return cat(out)


def _runs(m, w):
    out = set()
    prev = None
    for i in range(w):
        b = (m >> i) & 1
        if prev is not None and b != prev:
            out.add(i)
        prev = b
    return out if len(out) <= 16 else set()


# --- ranges ----------------------------------------------------------------------------------
def umax(t):
    m = t._um
    if m is None:
        m = _umax(t)
        t._um = m
    return m


def _umax(t):
    op = t.op
    if op == "c":
        return t.args[0]
    full = ONES[t.w]
    if op == "cat":
        v = 0
        for p in t.args:
            v = (v << p.w) | umax(p)
        return v
    if op == "ite":
        return max(umax(t.args[1]), umax(t.args[2]))
    if op == "and":
        return min(umax(a) for a in t.args)
    if op == "add":
        v = t.args[0]
        for k, x in t.args[1]:
            v += k * umax(x)
            if v > full:
                return full
        return v
    if op == "xor" or op == "or":
        m = 0
        for a in t.args:
            m |= ONES[umax(a).bit_length()]
        return m
    if op == "mul":
        return min(full, umax(t.args[0]) * umax(t.args[1]))
    if op == "udiv":
        return umax(t.args[0]) // umin(t.args[1]) if umin(t.args[1]) else full
    if op == "urem":
        return min(umax(t.args[0]), max(0, umax(t.args[1]) - 1)) if umin(t.args[1]) else umax(t.args[0])
    return full


def umin(t):
    if t.op == "c":
        return t.args[0]
    if t.op == "ite":
        return min(umin(t.args[1]), umin(t.args[2]))
    if t.op == "cat":
        v = 0
        for p in t.args:
            v = (v << p.w) | umin(p)
        return v
    if t.op == "add":
        v, u = t.args[0], t.args[0]
        for k, x in t.args[1]:
            v += k * umin(x)
            u += k * umax(x)
            if u > ONES[t.w]:
                return 0
        return v
    return 0


# --- predicates ------------------------------------------------------------------------------
def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.w == 1:
        if a.op == "c":
            return b if cv(a) else not_(b)
        if b.op == "c":
            return a if cv(b) else not_(a)
    if a.op == "c":
        a, b = b, a
    if b.op == "c":
        k = b.args[0]
        if k > umax(a) or k < umin(a):
            return FALSE
        if a.op == "ite":
            x, y = a.args[1], a.args[2]
            if x.op == "c" or y.op == "c":
                return ite(a.args[0], eq(x, b), eq(y, b))
            if k == 0 and a.op == "ite":
                # a difference that is compared only when its operands differ (memcmp)
                ez, cc = eq(y, b), a.args[0]
                if ez is cc:
                    return and_(cc, eq(x, b))
                if ez is not_(cc):
                    return or_(eq(x, b), not_(cc))
        if k == 0 and a.op == "or":
            return and_(*[eq(x, b) for x in a.args])
        if k == 0 and a.op == "xor" and len(a.args) == 2:
            return eq(*a.args)
        if k == 0 and a.op == "add" and a.args[0] == 0 and len(a.args[1]) == 2:
            (k1, x1), (k2, x2) = a.args[1]
            if k1 == 1 and k2 == ONES[a.w] or k2 == 1 and k1 == ONES[a.w]:
                return eq(x1, x2)
        if a.op == "xor" and a.args[-1].op == "c":
            return eq(xor(*a.args[:-1]), const(k ^ a.args[-1].args[0], a.w))
        if a.op == "add":
            c, its = a.args
            if c:
                return eq(mk_lin(0, {x: q for q, x in its}, a.w), const(k - c, a.w))
            if len(its) == 1 and its[0][0] == ONES[a.w]:
                return eq(its[0][1], const(-k, a.w))
        if a.op == "cat":
            pos = a.w
            conj = []
            for p in a.args:
                pos -= p.w
                kk = const(k >> pos, p.w)
                if p.op == "c":
                    if p is not kk:
                        return FALSE
                else:
                    conj.append((p, kk))
            if len(conj) == 1:
                return eq(*conj[0])
        if a.op == "sext":
            x = a.args[0]
            kx = const(k, x.w)
            if sext(kx, a.w).args[0] != k:
                return FALSE
            return eq(x, kx)
    else:
        ca, la = lin(a)
        cb, lb = lin(b)
        if (la and lb) and (a.op == "add" or b.op == "add"):
            d = sub(a, b)
            if d.op == "c":
                return TRUE if d.args[0] == 0 else FALSE
        if a.op == "cat" and b.op == "cat" and bounds_of(a) == bounds_of(b):
            for p, q in zip(a.args, b.args):
                if p.op == "c" and q.op == "c" and p is not q:
                    return FALSE
            l = [(p, q) for p, q in zip(a.args, b.args) if p is not q]
            if len(l) == 1:
                return eq(*l[0])
        if a.op == "ite" or b.op == "ite":
            for x, y in ((a, b), (b, a)):
                if x.op == "ite":
                    c, p, q = x.args
                    if p is y:
                        return or_(c, eq(q, y))
                    if q is y:
                        return or_(not_(c), eq(p, y))
            if a.op == b.op and a.args[0] is b.args[0]:
                if a.args[1] is b.args[1]:
                    return or_(a.args[0], eq(a.args[2], b.args[2]))
                if a.args[2] is b.args[2]:
                    return or_(not_(a.args[0]), eq(a.args[1], b.args[1]))
        if umax(a) < umin(b) or umax(b) < umin(a):
            return FALSE
    if a.id > b.id and b.op != "c":
        a, b = b, a
    return mk("eq", (a, b), 1)


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "udiv":
        x, y = a.args
        if x.op == "c" and b.op == "c" and cv(b) > 0:
            # floor(x / y) < k: y > floor(x / k), also for y = 0 (quotient all ones)
            return ult(const(cv(x) // cv(b), x.w), y)
        if umax(y) * umax(b) <= ONES[a.w] and b.op != "c":
            # floor(x / y) < b: x < b * y
            return ult(x, mul(b, y))
        if y.op == "c" and cv(y) and b.op == "c" and cv(b) * cv(y) <= ONES[a.w]:
            return ult(x, const(cv(b) * cv(y), a.w))
    if b.op == "udiv" and a.op == "c" and b.args[0].op == "c" and cv(a) < ONES[a.w]:
        # k < floor(x / y): (k + 1) * y <= x
        return not_(ult(const(cv(b.args[0]) // (cv(a) + 1), a.w), b.args[1]))
    if umax(a) < umin(b):
        return TRUE
    if umin(a) >= umax(b):
        return FALSE
    if b.op == "c" and cv(b) == 1:
        return eq(a, const(0, a.w))
    if b.op == "c" and cv(b) == ONES[b.w]:
        return not_(eq(a, b))
    if a.op == "c":
        # c < b is not (b < c + 1)
        if cv(a) == 0:
            return not_(eq(b, a))
        return not_(ult(b, const(cv(a) + 1, a.w)))
    if a.op == "cat" and a.args[0].op == "c" and cv(a.args[0]) == 0:
        zb = b
        k = a.args[0].w
        if b.op == "cat" and b.args[0].op == "c" and cv(b.args[0]) == 0:
            k = min(k, b.args[0].w)
            return ult(ext(a, 0, a.w - k), ext(b, 0, a.w - k))
        if b.op == "c" and cv(b) <= ONES[a.w - k]:
            return ult(ext(a, 0, a.w - k), ext(b, 0, a.w - k))
    elif b.op == "cat" and b.args[0].op == "c" and cv(b.args[0]) == 0 and a.op == "c":
        k = b.args[0].w
        if cv(a) <= ONES[a.w - k]:
            return ult(ext(a, 0, a.w - k), ext(b, 0, a.w - k))
    return mk("ult", (a, b), 1)


def sval(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def slt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if sval(cv(a), a.w) < sval(cv(b), b.w) else FALSE
    h = 1 << (a.w - 1)
    if umax(a) < h and umax(b) < h:
        return ult(a, b)
    if b.op == "c" and cv(b) == 0:
        return eq(ext(a, a.w - 1, 1), TRUE)
    if b.op == "c" and cv(b) < h and umax(a) < h:
        return ult(a, b)
    if a.op == "c" and cv(a) == ONES[a.w]:       # -1 < b
        return eq(ext(b, b.w - 1, 1), FALSE)
    if a.op == "sext" and b.op == "c":
        x = a.args[0]
        kb = const(cv(b), x.w)
        if sext(kb, a.w) is b:
            return slt(x, kb)
    if b.op == "sext" and a.op == "c":
        x = b.args[0]
        kb = const(cv(a), x.w)
        if sext(kb, b.w) is a:
            return slt(kb, x)
    return mk("slt", (a, b), 1)


def ule(a, b):
    return not_(ult(b, a))


def ite(c, a, b):
    if c.op == "c":
        return a if cv(c) else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.w == 1:
        if a.op == "c" and b.op == "c":
            return c if cv(a) else not_(c)
        if a.op == "c":
            return or_(c, b) if cv(a) else and_(not_(c), b)
        if b.op == "c":
            return or_(not_(c), a) if cv(b) else and_(c, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.w)


def binop(op, a, b):
    """the remaining operators"""
    if a.op == "c" and b.op == "c":
        return const(_ev2(op, cv(a), cv(b), a.w), a.w)
    if op in ("shl", "lshr", "ashr") and b.op == "c":
        k = cv(b)
        if op == "shl":
            return shlc(a, k)
        if op == "lshr":
            return lshrc(a, k)
        k = min(k, a.w - 1)
        return sext(ext(a, k, a.w - k), a.w)
    if op in ("sdiv", "srem") and b.op == "c" and 0 < cv(b) <= ONES[a.w] >> 1 and umax(a) <= ONES[a.w] >> 1:
        return binop("u" + op[1:], a, b)
    if op == "udiv" and b.op == "c" and cv(b) > 1 and a.op == "add":
        d, k = cv(b), a.args[0]
        if k % d == 0 and all(c % d == 0 for c, _ in a.args[1]) and k + sum(c * umax(x) for c, x in a.args[1]) <= ONES[a.w]:
            return mk_lin(k // d, {x: c // d for c, x in a.args[1]}, a.w)
    if op == "udiv" and b.op == "c" and cv(b) and cv(b) & (cv(b) - 1) == 0:
        return lshrc(a, cv(b).bit_length() - 1)
    if op == "urem" and b.op == "c" and cv(b) and cv(b) & (cv(b) - 1) == 0:
        return and_(a, const(cv(b) - 1, a.w))
    if op in ("udiv", "urem") and umax(a) < umin(b):
        return const(0, a.w) if op == "udiv" else a
    if op == "udiv" and b.op == "c" and cv(b) == 1:
        return a
    return mk(op, (a, b), a.w)


def _ev2(op, x, y, w):
    if op == "udiv":
        return x // y if y else ONES[w]
    if op == "urem":
        return x % y if y else x
    if op in ("sdiv", "srem"):
        sx, sy = sval(x, w), sval(y, w)
        if sy == 0:
            return (ONES[w] if sx >= 0 else 1) if op == "sdiv" else x
        q = abs(sx) // abs(sy)
        if (sx < 0) != (sy < 0):
            q = -q
        return q if op == "sdiv" else sx - q * sy
    if op == "shl":
        return x << y if y < w else 0
    if op == "lshr":
        return x >> y if y < w else 0
    if op == "ashr":
        return sval(x, w) >> min(y, w - 1)
    raise KeyError(op)


def uf(name, args, w):
    return mk("uf", (name,) + tuple(args), w)


# --- floating point (64-bit doubles as bit-vectors) ------------------------------------------
import struct


def d2f(v):
    return struct.unpack("<d", struct.pack("<Q", v))[0]


def f2d(f):
    return struct.unpack("<Q", struct.pack("<d", f))[0]


def fp(op, args, w):
    """op: fadd fsub fmul fdiv fcmp_<pred> u2f s2f f2u f2s"""
    if all(a.op == "c" for a in args):
        r = _evfp(op, [cv(a) for a in args], [a.w for a in args], w)
        if r is not None:
            return const(r, w)
    return mk(op, tuple(args), w)


def _evfp(op, v, ws, w):
    try:
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = d2f(v[0]), d2f(v[1])
            if op == "fadd":
                return f2d(a + b)
            if op == "fsub":
                return f2d(a - b)
            if op == "fmul":
                return f2d(a * b)
            if b == 0:
                import math
                if a != a or a == 0:
                    return 0x7ff8000000000000
                s = math.copysign(1, a) * math.copysign(1, b)
                return f2d(math.inf * s)
            return f2d(a / b)
        if op.startswith("fcmp_"):
            a, b = d2f(v[0]), d2f(v[1])
            p = op[5:]
            un = a != a or b != b
            base = {"eq": a == b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "ne": a != b}.get(p[1:])
            if p == "ord":
                return int(not un)
            if p == "uno":
                return int(un)
            return int((not un and base) if p[0] == "o" else (un or base))
        if op == "u2f":
            return f2d(float(v[0]))
        if op == "s2f":
            return f2d(float(sval(v[0], ws[0])))
        if op in ("f2u", "f2s"):
            a = d2f(v[0])
            if a != a or a in (float("inf"), float("-inf")):
                return None
            return int(a) & ONES[w]
        if op == "fneg":
            return v[0] ^ (1 << 63)
        if op == "fabs":
            return v[0] & ((1 << 63) - 1)
    except OverflowError:
        return None
    return None


# --- substitution / evaluation ---------------------------------------------------------------
def subterms(t):
    op = t.op
    if op == "c" or op == "v":
        return ()
    if op == "add":
        return tuple(x for _, x in t.args[1])
    if op == "ext":
        return (t.args[0],)
    if op == "uf":
        return t.args[1:]
    return t.args


def order(roots, done):
    """post-order list of the terms under roots that are not in done"""
    out = []
    seen = set()
    stack = [(r, False) for r in roots]
    while stack:
        t, post = stack.pop()
        if post:
            out.append(t)
            continue
        if t in seen or t in done:
            continue
        seen.add(t)
        stack.append((t, True))
        for a in subterms(t):
            if a not in seen and a not in done:
                stack.append((a, False))
    return out


class Env:
    """A valuation: variables by name, uninterpreted functions by table; evaluates terms with a cache."""
    def __init__(self, vals=None, ufs=None, default=0):
        self.vals = vals or {}
        self.ufs = ufs or {}
        self.default = default
        self.cache = {}

    def ev(self, t):
        if t.op == "c":
            return t.args[0]
        c = self.cache
        if t in c:
            return c[t]
        for x in order([t], c):
            c[x] = self.ev1(x)
        return c[t]

    def uf(self, name, args, w):
        f = self.ufs.get(name)
        if f is None:
            return 0
        if callable(f):
            return f(*args) & ONES[w]
        return f[0].get(tuple(args), f[1]) & ONES[w]

    def ev1(self, t):
        c = self.cache
        op, a, w = t.op, t.args, t.w
        if op == "c":
            return a[0]
        if op == "v":
            v = self.vals.get(a[0])
            if v is None:
                v = self.default(a[0], w) if callable(self.default) else self.default
                self.vals[a[0]] = v
            return v & ONES[w]
        if op == "add":
            return (a[0] + sum(k * c[x] for k, x in a[1])) & ONES[w]
        if op == "cat":
            v = 0
            for p in a:
                v = (v << p.w) | c[p]
            return v
        if op == "ext":
            return (c[a[0]] >> a[1]) & ONES[w]
        if op == "xor":
            v = 0
            for p in a:
                v ^= c[p]
            return v
        if op == "and":
            v = ONES[w]
            for p in a:
                v &= c[p]
            return v
        if op == "or":
            v = 0
            for p in a:
                v |= c[p]
            return v
        if op == "not":
            return 1 - c[a[0]]
        if op == "eq":
            return int(c[a[0]] == c[a[1]])
        if op == "ult":
            return int(c[a[0]] < c[a[1]])
        if op == "slt":
            return int(sval(c[a[0]], a[0].w) < sval(c[a[1]], a[1].w))
        if op == "ite":
            return c[a[1]] if c[a[0]] else c[a[2]]
        if op == "sext":
            return sval(c[a[0]], a[0].w) & ONES[w]
        if op == "mul":
            return (c[a[0]] * c[a[1]]) & ONES[w]
        if op == "uf":
            return self.uf(a[0], [c[x] for x in a[1:]], w)
        if op in ("udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr"):
            return _ev2(op, c[a[0]], c[a[1]], w) & ONES[w]
        r = _evfp(op, [c[x] for x in a], [x.w for x in a], w)
        return 0 if r is None else r


# --- z3 --------------------------------------------------------------------------------------
_ufd = {}
RNE = z3.RNE()
RTZ = z3.RTZ()
F64 = z3.Float64()


def z3b(t):
    """translation of a width-1 term to Bool"""
    z = z3t(t)
    return z == z3.BitVecVal(1, 1) if not z3.is_bool(z) else z


def _asbv(z):
    return z3.If(z, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) if z3.is_bool(z) else z


def z3t(t):
    if t._z is not None:
        return t._z
    for x in order([t], _DoneZ):
        x._z = _z3one(x)
    return t._z


class _Z:
    def __contains__(self, t):
        return t._z is not None


_DoneZ = _Z()


def _z3one(t):
    op, a, w = t.op, t.args, t.w
    if op == "c":
        return z3.BitVecVal(a[0], w) if w > 1 else z3.BoolVal(bool(a[0]))
    if op == "v":
        return z3.BitVec(a[0], w) if w > 1 else z3.Bool(a[0])
    B = lambda x: _asbv(x._z)
    C = lambda x: x._z if z3.is_bool(x._z) else x._z == 1
    if op == "add":
        r = None
        for k, x in a[1]:
            if k == 1:
                y = B(x)
            elif k == ONES[w]:
                y = -B(x)
            else:
                y = B(x) * z3.BitVecVal(k, w)
            r = y if r is None else r + y
        return r + z3.BitVecVal(a[0], w) if a[0] else r
    if op == "cat":
        return z3.Concat(*[B(p) for p in a])
    if op == "ext":
        r = z3.Extract(a[1] + w - 1, a[1], B(a[0]))
        return r == 1 if w == 1 else r
    if op in ("xor", "and", "or"):
        if w == 1:
            xs = [C(p) for p in a]
            if op == "and":
                return z3.And(*xs)
            if op == "or":
                return z3.Or(*xs)
            r = xs[0]
            for x in xs[1:]:
                r = z3.Xor(r, x)
            return r
        r = B(a[0])
        for p in a[1:]:
            r = r ^ B(p) if op == "xor" else (r & B(p) if op == "and" else r | B(p))
        return r
    if op == "not":
        return z3.Not(C(a[0]))
    if op == "eq":
        return C(a[0]) == C(a[1]) if a[0].w == 1 else B(a[0]) == B(a[1])
    if op == "ult":
        return z3.ULT(B(a[0]), B(a[1]))
    if op == "slt":
        return B(a[0]) < B(a[1])
    if op == "ite":
        if w == 1:
            return z3.If(C(a[0]), C(a[1]), C(a[2]))
        return z3.If(C(a[0]), B(a[1]), B(a[2]))
    if op == "sext":
        return z3.SignExt(w - a[0].w, B(a[0]))
    if op == "mul":
        return B(a[0]) * B(a[1])
    if op == "udiv":
        return z3.UDiv(B(a[0]), B(a[1]))
    if op == "urem":
        return z3.URem(B(a[0]), B(a[1]))
    if op == "sdiv":
        return B(a[0]) / B(a[1])
    if op == "srem":
        return z3.SRem(B(a[0]), B(a[1]))
    if op == "shl":
        return B(a[0]) << B(a[1])
    if op == "lshr":
        return z3.LShR(B(a[0]), B(a[1]))
    if op == "ashr":
        return B(a[0]) >> B(a[1])
    if op == "uf":
        # applications are variables; the solver scope adds the consistency constraints
        return z3.BitVec("uf!%d" % t.id, w) if w > 1 else z3.Bool("uf!%d" % t.id)
    # floating point
    F = lambda x: z3.fpBVToFP(B(x), F64)
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        f = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op]
        return z3.fpToIEEEBV(f(RNE, F(a[0]), F(a[1])))
    if op.startswith("fcmp_"):
        p = op[5:]
        x, y = F(a[0]), F(a[1])
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        if p == "ord":
            return z3.Not(un)
        if p == "uno":
            return un
        base = {"eq": z3.fpEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "lt": z3.fpLT, "le": z3.fpLEQ}.get(p[1:])
        if p[1:] == "ne":
            b = z3.Not(z3.fpEQ(x, y))
            return z3.And(z3.Not(un), b) if p[0] == "o" else z3.Or(un, b)
        return base(x, y) if p[0] == "o" else z3.Or(un, base(x, y))
    if op == "u2f":
        return z3.fpToIEEEBV(z3.fpUnsignedToFP(RNE, B(a[0]), F64))
    if op == "s2f":
        return z3.fpToIEEEBV(z3.fpSignedToFP(RNE, B(a[0]), F64))
    if op == "f2u":
        return z3.fpToUBV(RTZ, F(a[0]), z3.BitVecSort(w))
    if op == "f2s":
        return z3.fpToSBV(RTZ, F(a[0]), z3.BitVecSort(w))
    if op == "fneg":
        return B(a[0]) ^ z3.BitVecVal(1 << 63, 64)
    if op == "fabs":
        return B(a[0]) & z3.BitVecVal((1 << 63) - 1, 64)
    raise KeyError(op)
