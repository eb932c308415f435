from .specs import Spec
from .cbmc import Job
from .irx_job import IJob


def c22(tier, seed, work):
    n = 72 if tier == "quick" else 200
    return [Job("verify_bytes", "h_c22.c", ["libcperciva/crypto/crypto_verify_bytes.c"], defs=["MAXLEN=%d" % n],
                bounds="lengths 0..%d" % n)] + \
        [Job("verify_bytes_%d" % k, "h_c22.c", ["libcperciva/crypto/crypto_verify_bytes.c"], defs=["MAXLEN=%d" % k, "MINLEN=%d" % k], unwind=k + 10,
             bounds="length %d" % k) for k in ((100, 128, 129, 255, 256, 257, 520, 1030) if tier == "quick" else (256, 257, 520, 1030, 4100))]


Spec("C22", c22, "lengths 0..72 (thorough: 0..200) and 100, 128, 129, 255, 256, 257, 520, 1030 (thorough: 4100), all contents", "longer lengths",
     explanation="CBMC executes crypto_verify_bytes symbolically on two buffers of a symbolic length; SAT decides 'zero iff equal', exact reads, inputs unmodified.",
     technique="bounded symbolic execution (CBMC, SAT) of crypto_verify_bytes over all lengths and contents",
     note="All contents for every length up to the bound; unwinding assertions on.")


def c23(tier, seed, work):
    return [Job("sysendian", "h_c23.c", [], bounds="all values, all 16 offsets")]


Spec("C23", c23, "all 16/32/64-bit values and byte strings, 16 buffer offsets", "none for these widths",
     explanation="CBMC executes every encoder/decoder of sysendian.h on symbolic values and surrounding bytes.",
     technique="symbolic execution (CBMC, SAT) of sysendian.h over all values",
     note="Complete over values; alignment represented by 16 offsets in one buffer.")


def c24(tier, seed, work):
    js = []
    for u in range(7):
        for sub in ([0, 1] if u else [None]):
            d = ["UNIT=%d" % u] + ([] if sub is None else ["SUB=%d" % sub])
            js.append(Job("format_%d%s" % (u, "" if sub is None else "_%d" % sub), ["h_c24f.c", "vf_asprintf.c"],
                          ["libcperciva/util/humansize.c"], defs=d, unwind=70, bounds="all sizes in that unit"))
    for n in range(0, 22 if tier == "quick" else 25):
        js.append(IJob("parse_len%d" % n, ["h_c24p.c", "vf_asprintf.c"], ["libcperciva/util/humansize.c"], defs=["LEN=%d" % n],
                      bounds="all strings of %d characters" % n))
    return js


Spec("C24", c24, "formatting: all 2^64 sizes; parsing: all strings of up to 21 characters (thorough: 24)", "longer strings",
     assumptions=["asprintf formats %d/%c/%s as the C standard says (C34 covers asprintf itself)"],
     explanation="humansize and humansize_parse are executed symbolically; the text is compared with an independent statement of the SI form / grammar.",
     technique="bounded symbolic execution (CBMC, SAT) of humansize and humansize_parse",
     note="Complete for formatting; strings bounded in length for parsing.")
