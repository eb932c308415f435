"""C20, C21, C29 and other small modules around the operating system."""
from .specs import Spec
from .cbmc import Job
from .irx_job import IJob


def c20(tier, seed, work):
    S = ["libcperciva/crypto/crypto_entropy.c", "libcperciva/util/insecure_memzero.c"]
    def j(name, warm, nreq, extra, b, rd=True, cost=0):
        return IJob(name, ["h_c20.c"], S, defs=["WARM=%d" % warm, "NREQ=%d" % nreq] + extra + (["RDRAND=1"] if rd else []),
                    cpusupport=rd, bounds=b, timeout=600, cost=cost)
    m = 70 if tier == "quick" else 200
    js = [j("requests", 0, 3, ["MAXREQ=%d" % m], "3 requests of 0..%d bytes" % m),
          j("requests_nordrand", 0, 3, ["MAXREQ=%d" % m], "3 requests of 0..%d bytes, no RDRAND" % m, rd=False)]
    for w in (254, 255, 256):
        js.append(j("reseed_%d" % w, w, 3, ["MAXREQ=40"], "%d one-byte requests, then 3 requests of 0..40 bytes" % w, cost=5))
    js.append(j("reseed_twice", 511, 2, ["MAXREQ=32"], "511 one-byte requests, then 2 requests of 0..32 bytes", cost=6))
    for n in (65535, 65536, 65537):
        js.append(j("big_%d" % n, 0, 1, ["BIG=%d" % n], "one request of %d bytes" % n, cost=8))
    js.append(j("big_reseed", 255, 1, ["BIG=65540"], "255 one-byte requests, then one of 65540 bytes (two generate calls, reseed between)", cost=10))
    if tier != "quick":
        js.append(j("big_3", 254, 2, ["BIG=131080"], "254 one-byte requests, then two of 131080 bytes", cost=20))
    return js


Spec("C20", c20, "request sequences of the listed shapes (symbolic lengths up to 70 bytes, single requests around 65536 bytes, up to 515 generate calls), every entropy failure pattern in the last requests",
     "other lengths and longer sequences",
     assumptions=["HMAC-SHA256 is a function of key and message (C17)", "memcpy/memset as in the C standard"],
     explanation="crypto_entropy.c is executed symbolically next to an independent HMAC_DRBG reference, with HMAC an uninterpreted function, entropy bytes and failures symbolic; equality of every output byte and of the entropy requests made is decided per path.",
     technique="symbolic execution of the LLVM IR of crypto_entropy.c with z3, HMAC as an uninterpreted function",
     note="All entropy contents, failures and request lengths within the listed shapes.")


def c21(tier, seed, work):
    S = ["libcperciva/util/entropy.c"]
    r = 5 if tier == "quick" else 8
    def j(name, m, r, reach):
        return IJob(name, ["h_c21.c"], S, env="env_sys.h", cpusupport=False, defs=["MODE=%d" % m, "MAXR=%d" % r], reach=["REACH:" + x for x in reach],
                    bounds="up to 2^24 bytes in at most %d reads" % r)
    return [j("entropy_read", 0, r, ["success", "failure"]), j("handle", 1, r, ["success", "failure", "init failed"])]


Spec("C21", c21, "buffers up to 2^24 bytes, at most 5 (thorough: 8) reads, at most 2 interrupted closes", "longer sequences of short reads",
     assumptions=["open/read/close behave as POSIX says: any short count, error or end of file"],
     explanation="entropy.c is executed symbolically against a random device whose content, read sizes and failures are symbolic.",
     technique="symbolic execution of the LLVM IR of entropy.c with z3 (symbolic lengths, read counts and faults)",
     note="All contents, lengths and fault positions within the bounds.")


def c29(tier, seed, work):
    S = ["libcperciva/util/monoclock.c", "lib/scryptenc/scryptenc_cpuperf.c"]
    n = 5 if tier == "quick" else 7
    def j(name, m, reach):
        return IJob(name, ["h_c29.c"], S, env="env_clk.h", cpusupport=False, fpabs=True, ub=m != 3, defs=["MODE=%d" % m, "MAXT=%d" % n],
                    reach=["REACH:" + x for x in reach], bounds="all clock values up to 2^40 s, every failure" + (", at most %d clock readings" % n if m == 3 else ""))
    return [j("get", 0, ["a time", "clock failure"]), j("cputime", 1, ["a time", "clock failure"]),
            j("getres", 2, ["a resolution", "clock failure"]), j("cpuperf", 3, ["a speed", "an error"]),
            IJob("cpuperf_exact", ["h_c29.c"], S, env="env_clk.h", cpusupport=False, defs=["MODE=3", "EXACT", "MAXT=%d" % (n + 2)], reach=["REACH:a speed", "REACH:an error"],
                 bounds="clocks advancing by 0 or 1 s, resolutions 0.5 and 1.5 s, exact arithmetic, at most %d clock readings" % (n + 2))]


Spec("C29", c29, "all clock readings below 2^40 seconds, every clock or key-derivation failure; speed measurements of at most 5 (thorough: 7) clock readings",
     "longer measurements; rounding of the floating-point arithmetic (operations are uninterpreted, except in counterexamples)",
     assumptions=["successive readings of one clock do not decrease", "comparison of time differences agrees with comparison of the integer times"],
     explanation="monoclock.c and scryptenc_cpuperf.c are executed symbolically with symbolic clocks that may be unsupported or fail.",
     technique="symbolic execution of the LLVM IR of monoclock.c and scryptenc_cpuperf.c with z3 (floating point uninterpreted)",
     note="All clock values and failures within the bounds.")
