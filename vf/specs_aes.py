"""C18, C19, C30: AES, AES-CTR and choice of implementations."""
from .specs import Spec
from .cbmc import Job, H
from .irx_job import IJob

CTR = ["libcperciva/crypto/crypto_aesctr.c", "libcperciva/crypto/crypto_aesctr_aesni.c"]


def c19(tier, seed, work):
    th = tier != "quick"
    js = []
    for hw in (0, 1):
        n = "hw" if hw else "sw"
        d = ["HW=%d" % hw]
        js.append(IJob(n, ["h_c19.c"], CTR, defs=d + ["MODE=0", "LEN1=%d" % (33 if th else 17), "LEN2=%d" % (66 if th else 33)],
                       bounds="calls of 0..%d, 0..%d, 33 bytes; restarts; one-shot calls" % ((33, 66) if th else (17, 33))))
        js.append(IJob(n + "_carry", ["h_c19.c"], CTR, defs=d + ["MODE=0", "LONG=1"], reach=["REACH:carry"], bounds="calls around block 256"))
        js.append(IJob(n + "_long", ["h_c19.c"], CTR, defs=d + ["MODE=0", "LONG=2"], reach=["REACH:long"], bounds="one call of 65555 bytes"))
        js.append(IJob(n + "_far", ["h_c19.c"], CTR, optional=True, defs=d + ["MODE=1"] + (["LEN1=17", "LEN2=16"] if th else []), timeout=840 if th else 200,
                       bounds="every position 16*k with 1 <= k < 2^56, calls of %s and 17 bytes" % ("0..17, 0..16" if th else "0, 3, 16; 0, 13, 30")))
    return js


Spec("C19", c19, "every nonce, key and input; three successive calls of 0..17, 0..33 and 33 bytes (thorough: 0..33, 0..66, 33), calls around block 256, and calls from every block position below 2^56; hardware and software path; in place or not",
     "more calls; longer calls; switching the hardware on and off during a stream (the choice is made once, C30)",
     assumptions=["the AES block function is an arbitrary function of key and block (C18)"],
     explanation="crypto_aesctr.c and crypto_aesctr_aesni.c are executed symbolically with an uninterpreted block function; every output byte is compared with the keystream's definition.",
     technique="symbolic execution of the LLVM IR of the AES-CTR code with z3 (uninterpreted AES block function)",
     note="All nonces, inputs and positions within the bounds.")


AB = dict(env="env_abort.h", posix=False)
AES, NI = "libcperciva/crypto/crypto_aes.c", "libcperciva/crypto/crypto_aes_aesni.c"


def c18(tier, seed, work):
    return [IJob("aesni", ["h_c18.c"], [NI], defs=["MODE=0"], reach=["REACH:end", "REACH:refused", "REACH:no memory"], **AB, bounds="every key of 16 or 32 bytes, every block; other lengths up to 33 refused"),
            IJob("generic_hw", ["h_c18.c"], [AES, NI], defs=["MODE=1", "HW=1"], reach=["REACH:end2", "REACH:no memory"], **AB, bounds="the same through the generic functions, two keys"),
            IJob("generic_sw", ["h_c18.c"], [AES, NI], defs=["MODE=1", "HW=0"], reach=["REACH:end2", "REACH:set fails", "REACH:no memory"], **AB, bounds="the same with the system's AES, which may refuse the key")]


Spec("C18", c18, "every 128- and 256-bit key and every block; in place or not; every allocation failure", "the system library's own AES (an oracle here); the ARM code",
     assumptions=["AES-NI instructions behave as Intel's manual says", "the system's AES functions compute AES", "insecure_memzero wipes (C33)"],
     explanation="crypto_aes_aesni.c and crypto_aes.c are executed symbolically with the S-box uninterpreted; each ciphertext byte must be the term FIPS 197 prescribes.",
     technique="symbolic execution of the LLVM IR of the AES code with z3 (uninterpreted S-box; canonical terms)",
     note="Every key and block.")


def c30(tier, seed, work):
    from .specs_kdf import CS, K
    return [IJob("aes", ["h_c18.c"], [AES], defs=["MODE=2"], reach=["REACH:abort", "REACH:hardware", "REACH:software", "REACH:later"], bounds="AES-NI there or not, wrong or not (one byte, for one key length, or failing), the library wrong or not; two requests", **AB),
            IJob("sha256", ["h_c15.c"], ["libcperciva/alg/sha256.c"], defs=["MODE=3"], bounds="SHA-NI, SSSE3, SSE2 there or not, each function wrong or not in one bit; two requests"),
            IJob("detect", ["h_c30.c"], ["libcperciva/cpusupport/cpusupport_x86_%s.c" % f for f in ("aesni", "rdrand", "sse2", "ssse3", "shani")], env="env_cpuid.h", bounds="every answer of the cpuid instruction; two questions"),
            IJob("mixing", ["h_c12.c"], CS, defs=["MODE=2"], bounds="SSE2 there or not, each mixing function wrong or not in one bit; every allocation failure", **K)]


Spec("C30", c30, "every combination of features reported, implementations that fail their self-test, and requests", "implementations that are wrong only on inputs the self-test does not try",
     assumptions=["the compiler's feature tests decide what is compiled in"],
     explanation="The code that chooses implementations is executed symbolically with models of the implementations, which are right or wrong by choice of the solver.",
     technique="symbolic execution of the LLVM IR of the choosing code with z3",
     note="All combinations.")
