"""C15-C17: SHA-256, HMAC, PBKDF2."""
from .specs import Spec
from .cbmc import Job, H
from .irx_job import IJob

SHA = ["libcperciva/alg/sha256.c"]


def c15(tier, seed, work):
    return [IJob("portable", ["h_c15.c"], SHA, defs=["MODE=0"], optional=True, cpusupport=False, bounds="every state and block, the block aligned or not"),
            IJob("sse2", ["h_c15.c"], ["libcperciva/alg/sha256_sse2.c"], defs=["MODE=1"], bounds="every state and block, the block aligned or not"),
            IJob("shani", ["h_c15.c"], ["libcperciva/alg/sha256_shani.c"], defs=["MODE=2"], bounds="every state and block, the block aligned or not")]


Spec("C15", c15, "one compression: every 256-bit state and 512-bit block", "the ARM implementation (not compiled on this machine)",
     assumptions=["SHA-NI and SSSE3 instructions behave as Intel's manual says"],
     explanation="Each implementation is executed symbolically from its LLVM IR and the new state compared with FIPS 180-4's, word for word.",
     technique="symbolic execution of the LLVM IR of the compression functions with z3 (bit-vector terms, canonicalized)",
     note="Every state and block.")


def c16(tier, seed, work):
    th = tier != "quick"
    all_ = ["ALL=1"] if th else []
    js = [IJob("split", ["h_sha.c"], SHA, defs=["MODE=0", "AMAX=66", "BMAX=%d" % (66 if not th else 130)] + all_, timeout=860 if th else 240, bounds="updates of 0..66, 0..%d, and 0, 1 or 128 bytes" % (66 if not th else 130)),
          IJob("split_sse2", ["h_sha.c"], SHA, defs=["MODE=0", "AMAX=66", "BMAX=3", "SSE2=1"], bounds="the same with the SSE2 compression function, updates of 0..66, 0..3"),
          IJob("oneshot", ["h_sha.c"], SHA, defs=["MODE=1", "NMAX=%d" % (200 if not th else 520)], bounds="one-shot, 0..%d bytes" % (200 if not th else 520)),
          IJob("long", ["h_sha.c"], SHA, optional=True, defs=["MODE=2"] + all_, bounds="after any number (below 2^48) of whole blocks: %s and 0 or 70 more bytes" % ("0..65" if th else "0, 1, 2, 55, 56, 63, 64")),
          IJob("huge", ["h_sha.c"], SHA, optional=True, defs=["MODE=5"], bounds="one update of 64 to 2^33 bytes after 0, 21, 42 or 63 bytes: what is counted when its first block is mixed")]
    return js


Spec("C16", c16, "all contents; updates of 0..66, 0..66 (thorough: 0..130), and 0, 1 or 128 bytes; one-shot messages of 0..200 (520) bytes; messages after any number of whole blocks below 2^48; the length counted for one update of up to 2^33 bytes", "more than three updates",
     assumptions=["the compression function is an arbitrary function of state and block (C15)", "insecure_memzero wipes (C33)"],
     explanation="sha256.c is executed symbolically with an uninterpreted compression function; the digest must be the padded message's, by the book.",
     technique="symbolic execution of the LLVM IR of sha256.c with z3 (uninterpreted compression function)",
     note="All message contents and lengths within the bounds.")


def c17(tier, seed, work):
    th = tier != "quick"
    js = [IJob("hmac", ["h_sha.c"], SHA, defs=["MODE=3", "KMAX=%d" % (130 if not th else 200)], bounds="keys of 0..%d bytes, messages of up to 128 bytes in two pieces" % (130 if not th else 200))]
    for v, b in enumerate(("output of 0..100 bytes, 1 or 2 iterations", "passwords of 0..70 bytes", "salts of 0..130 bytes", "1 to 5 iterations", "an output of 257 bytes", "an output of 8225 bytes")):
        js.append(IJob("pbkdf2_%d" % v, ["h_sha.c"], SHA, defs=["MODE=4", "VAR=%d" % v], bounds=b))
    return js


Spec("C17", c17, "all contents; keys of 0..130 (200) bytes; messages of up to 128 bytes; PBKDF2: outputs of 0..100 and up to 8225 bytes, passwords of 0..70, salts of 0..130 bytes, 1..5 iterations", "longer inputs; more iterations",
     assumptions=["the compression function is an arbitrary function of state and block (C15)", "insecure_memzero wipes (C33)"],
     explanation="sha256.c is executed symbolically with an uninterpreted compression function and compared with RFC 2104 and RFC 8018 built from SHA-256 by the book.",
     technique="symbolic execution of the LLVM IR of sha256.c with z3 (uninterpreted compression function)",
     note="All contents, and lengths within the bounds.")
