"""x86 vector intrinsics (Intel SDM semantics).  Vectors are lists of lane terms, lane 0 first."""
from .terms import *
from . import exec as X


def resolve(n):
    f = TAB.get(n)
    return None if f is None else (lambda ex, st, fr, ins, a: f(*a))


def _s(t, a, b, c, last):
    r = lshrc(t, c) if last else rotr(t, c)
    return xor(rotr(t, a), rotr(t, b), r)


def S0(x): return _s(x, 2, 13, 22, False)
def S1(x): return _s(x, 6, 11, 25, False)
def s0(x): return _s(x, 7, 18, 3, True)
def s1(x): return _s(x, 17, 19, 10, True)


def rnds2(a, b, k):
    A, B, E, F = b[3], b[2], b[1], b[0]
    C, D, G, H = a[3], a[2], a[1], a[0]
    for i in range(2):
        ch = xor(and_(E, F), and_(not_(E), G))
        mj = xor(and_(A, B), and_(A, C), and_(B, C))
        t = add(ch, S1(E), k[i], H)
        A, B, C, D, E, F, G, H = add(t, mj, S0(A)), A, B, C, add(t, D), E, F, G
    return [F, E, B, A]


def msg1(a, b):
    w = list(a) + [b[0]]
    return [add(w[i], s0(w[i + 1])) for i in range(4)]


def msg2(a, b):
    w16 = add(a[0], s1(b[2]))
    w17 = add(a[1], s1(b[3]))
    return [w16, w17, add(a[2], s1(w16)), add(a[3], s1(w17))]


def pshufb(a, m):
    r = []
    for x in m:
        if x.op != "c":
            raise X.Inconclusive("symbolic byte shuffle")
        v = cv(x)
        r.append(const(0, 8) if v & 0x80 else a[v & 15])
    return r


def _gf(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = (a << 1) ^ (0x11b if a & 0x80 else 0)
        b >>= 1
    return r


def _mksbox():
    t = []
    for x in range(256):
        i = next((y for y in range(256) if _gf(x, y) == 1), 0)
        r = 0
        for k in range(5):
            r ^= ((i << k) | (i >> (8 - k))) & 0xff
        t.append(r ^ 0x63)
    return t


SBOX = _mksbox()


def sbox(x):
    return const(SBOX[cv(x)], 8) if x.op == "c" else uf("aes_sbox", (x,), 8)


def xtime(x):
    b = ext(x, 7, 1)
    z = const(0, 1)
    return xor(cat((ext(x, 0, 7), z)), cat((z, z, z, b, b, z, b, b)))


def _bytes(v):
    return [ext(l, 8 * i, 8) for l in v for i in range(l.w // 8)]


def _lanes(b, v):
    k = v[0].w // 8
    return [cat(b[i:i + k][::-1]) for i in range(0, 16, k)]


def enc(a, k, last):
    s = _bytes(a)
    s = [sbox(s[(4 * c + r + 4 * r) % 16]) for c in range(4) for r in range(4)]
    if not last:
        o = []
        for c in range(4):
            w = s[4 * c:4 * c + 4]
            for r in range(4):
                o.append(xor(xtime(w[r]), xtime(w[(r + 1) % 4]), w[(r + 1) % 4], w[(r + 2) % 4], w[(r + 3) % 4]))
        s = o
    return _lanes([xor(x, y) for x, y in zip(s, _bytes(k))], a)


def keygen(a, imm):
    s = _bytes(a)
    rc = ext(imm, 0, 8)
    o = []
    for w in (1, 3):
        t = [sbox(x) for x in s[4 * w:4 * w + 4]]
        o += t + [xor(t[1], rc), t[2], t[3], t[0]]
    return _lanes(o, a)


def _sh(f):
    def g(a, k):
        k = cv(k)
        return [const(0, x.w) if k >= x.w else f(x, k) for x in a]
    return g


TAB = {
    "x86.sha256rnds2": rnds2, "x86.sha256msg1": msg1, "x86.sha256msg2": msg2,
    "x86.ssse3.pshuf.b.128": pshufb,
    "x86.aesni.aesenc": lambda a, k: enc(a, k, False), "x86.aesni.aesenclast": lambda a, k: enc(a, k, True),
    "x86.aesni.aeskeygenassist": keygen,
}
for _t in ("w", "d", "q"):
    TAB["x86.sse2.pslli." + _t] = _sh(shlv)
    TAB["x86.sse2.psrli." + _t] = _sh(lshrc)
