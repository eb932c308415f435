"""C32-C34: information display, wiping, messages."""
from .specs import Spec
from .cbmc import Job
from .irx_job import IJob


def c34(tier, seed, work):
    th = tier != "quick"
    E = dict(env="env_out.h", cpusupport=False)
    js = [IJob("print_error", ["h_c34.c"], ["lib/scryptenc/scryptenc_print_error.c"], defs=["MODE=0"], reach=["REACH:file named"], bounds="all status codes and errno values, names of 3 characters or none", **E)]
    for big in (0, 4000) + ((300, 4080) if th else ()):
        js.append(IJob("warn_%d" % big, ["h_c34.c"], ["libcperciva/util/warnp.c"], defs=["MODE=1", "BIG=%d" % big], bounds="all four kinds of warning, messages of up to %d characters, errno values; standard error or system log" % (big + 9), **E))
    js.append(IJob("names", ["h_c34.c"], ["libcperciva/util/warnp.c"], defs=["MODE=1", "NAMES=1"], reach=["REACH:printed"], bounds="all program names of up to 5 characters", **E))
    for n in (3, 70) if not th else (3, 70, 300):
        js.append(IJob("asprintf_%d" % n, ["h_c34.c"], ["libcperciva/util/asprintf.c"], defs=["MODE=2", "LEN=%d" % n], bounds="strings of up to %d characters and a number, every failure" % n, **E))
    return js


Spec("C34", c34, "all status codes; file names of 3 characters; messages of up to 4009 characters; program names of up to 5 characters; formatted strings of up to 74 characters",
     "other formats and longer strings; system log messages beyond 4095 characters (documented as cut)",
     assumptions=["vsnprintf/vfprintf/strerror as in the C standard"],
     explanation="scryptenc_print_error.c, warnp.c and asprintf.c are executed symbolically with captured output; the text is compared with the documented message.",
     technique="symbolic execution of the LLVM IR of scryptenc_print_error.c, warnp.c and asprintf.c with z3",
     note="All status codes, errno values, characters and failures within the bounds.")


def c33(tier, seed, work):
    th = tier != "quick"
    js = []
    S = ["libcperciva/util/insecure_memzero.c"]
    for o in ("-O2", "-O3", "-Os"):
        n = 40 if not th else 140
        js.append(IJob("small%s" % o, ["h_c33.c"], S, iropt=o, cpusupport=False, defs=["MODE=0", "MAXN=%d" % n], bounds="0..%d bytes at 16 offsets, compiled with %s" % (n, o), opt=o))
        js.append(IJob("big%s" % o, ["h_c33.c"], S, iropt=o, cpusupport=False, defs=["MODE=1"], bounds="66000 bytes, compiled with %s" % o, opt=o))
        js.append(IJob("dead%s" % o, ["h_c33.c"], S, iropt=o, cpusupport=False, defs=["MODE=2"], bounds="buffers going out of use, compiled with %s" % o, opt=o))
    return js


Spec("C33", c33, "all lengths up to 40 (thorough: 140) bytes at 16 offsets, one length of 66000, buffers of 24..100 bytes about to be released; compiled by clang -O2, -O3 and -Os", "other lengths; other compilers; link-time optimization",
     explanation="insecure_memzero is compiled with optimization and the resulting LLVM IR is executed symbolically on secret bytes: all given bytes are zero afterwards, all others unchanged, also when the buffer is about to be released.",
     technique="symbolic execution of the optimized LLVM IR of insecure_memzero with z3 (symbolic lengths and contents)",
     note="All contents; lengths within the bounds.")
