"""C12-C14: the key derivation function."""
from .specs import Spec
from .cbmc import Job, H
from .irx_job import IJob

CS = ["lib-platform/crypto/crypto_scrypt.c"]
K = dict(env="env_kdf.h", posix=False)


def plain():
    return 'CONFIG_H_FILE="%s/cfg/config-plain.h"' % H


def c12(tier, seed, work):
    return [IJob("sizes", ["h_c12.c"], CS, defs=["MODE=0"], cpusupport=False, bounds="every N, r, p and buffer length; the first three blocks; every failure", **K),
            IJob("sizes_plain", ["h_c12.c"], CS, defs=["MODE=0", plain()], cpusupport=False, bounds="the same, built without posix_memalign and mmap", **K)]


Spec("C12", c12, "every N, r, p, password, salt and output length; the first three of the p blocks; every allocation failure", "mixing of blocks after the third; release after more than three blocks",
     assumptions=["posix_memalign/mmap return separate memory of the requested size and alignment"],
     explanation="crypto_scrypt is executed symbolically with symbolic N, r, p and lengths; the mixing functions and PBKDF2 are models that compare the working areas they are given with what was allocated.",
     technique="symbolic execution of the LLVM IR of crypto_scrypt.c with z3",
     note="All parameter values.")


def c13(tier, seed, work):
    return [IJob("compose", ["h_c12.c"], CS, defs=["MODE=1"], cpusupport=False, bounds="N in 2, 4, 8; r in 1, 2; p in 1..3; output of 0, 32, 61 bytes; two requests", **K),
            IJob("compose_sse2", ["h_c12.c"], CS, defs=["MODE=1", "SSE2=1"], bounds="the same with the SSE2 code compiled in", **K),
            IJob("blocks", ["h_c12.c"], CS, defs=["MODE=0"], cpusupport=False, bounds="every N, r, p, length and allocation failure: which blocks are mixed, up to the third", **K)]


Spec("C13", c13, "which blocks are mixed: every N, r and p, up to the third block; all else: N in 2, 4, 8; r in 1, 2; p in 1..3; output lengths 0, 32, 61; all contents; two successive requests", "larger parameters",
     assumptions=["PBKDF2 and the mixing functions are arbitrary functions here (they are C17 and C14)"],
     explanation="crypto_scrypt is executed symbolically; the models of PBKDF2 and the mixing functions produce arbitrary bytes and compare what they are given with what RFC 7914 prescribes.",
     technique="symbolic execution of the LLVM IR of crypto_scrypt.c with z3",
     note="All contents within the bounds.")


def c14(tier, seed, work):
    th = tier != "quick"
    js = []
    for r, n in [(1, 2), (1, 4), (2, 4), (3, 2), (1, 16), (8, 8), (17, 2), (32, 2), (33, 2), (65, 2), (1, 32), (1, 64), (1, 128)] + ([(2, 32), (4, 8), (8, 32), (2, 64), (1, 256), (1, 512), (129, 2), (17, 4), (32, 8)] if th else []):
        for impl, name, src in ((0, "generic", "lib/crypto/crypto_scrypt_smix.c"), (1, "sse2", "lib/crypto/crypto_scrypt_smix_sse2.c")):
            js.append(IJob("%s_r%d_n%d" % (name, r, n), ["h_c14.c"], [src], defs=["IMPL=%d" % impl, "RR=%d" % r, "NN=%d" % n], cellmax=1 << 16, timeout=860 if th else 240,
                           cost=r * n, bounds="every 128*%d-byte block, N = %d" % (r, n)))
    return js


Spec("C14", c14, "every block content; (r, N) in (1, 2), (1, 4), (2, 4), (3, 2), (1, 16), (1, 32), (1, 64), (1, 128), (8, 8), (17, 2), (32, 2), (33, 2), (65, 2) and in thorough (2, 32), (4, 8), (8, 32), (2, 64), (1, 256), (1, 512), (129, 2), (17, 4), (32, 8)", "larger r and N (the second word of Integerify matters only from N = 2^33)",
     explanation="Each mixing function is executed symbolically from its LLVM IR (V is read at a symbolic index) and the resulting block compared with RFC 7914's, word for word.",
     technique="symbolic execution of the LLVM IR of the mixing functions with z3 (bit-vector terms, canonicalized)",
     note="Every block content for the listed parameters.")
