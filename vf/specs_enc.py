"""C01-C06, C11: the entry points of scryptenc.c."""
from .specs import Spec
from .irx_job import IJob

SRC = ["lib/scryptenc/scryptenc.c", "libcperciva/crypto/crypto_verify_bytes.c", "libcperciva/util/insecure_memzero.c"]
H = ["h_enc.c", "w_enc.c"]
MODES = dict(ENCBUF=1, DECBUF=2, ENCFILE=3, DECFILE=4, RT_BB=5, RT_BF=6, RT_FB=7, RT_FF=8, INFO=9, PREPONLY=10)


def job(prop, mode, name=None, maxin=None, maxl=None, reach=None, **kw):
    d = ["PROP=%d" % prop, "MODE=%d" % MODES[mode]]
    defs = kw.pop("defs", [])
    maxl = maxl or (1 << 32) + (1 << 20)
    d += ["MAXL=%d" % maxl, "MAXIN=%d" % (maxin or 4)] + defs
    return IJob(name or mode.lower(), H, SRC, defs=d, env="env_enc.h", fpabs=True, reach=reach, replay_timeout=100,
                bounds="data up to %d bytes, passphrases up to 2^20 bytes%s" % (maxl, ", at most %d reads" % maxin if maxin else ""), **kw)



def R(*a):
    return ["REACH:" + x for x in a]


NOV = ["VERBOSE=0"]
F1 = ["VERBOSE=0", "FORCE=1"]


def c01(tier, seed, work):
    n = 3 if tier == "quick" else 4
    big = (n - 1) * 65536 + 1000
    r = R("round trip")
    return [job(1, "RT_BB", reach=r, defs=F1),
            job(1, "RT_BF", maxin=n, maxl=big, reach=r, defs=F1),
            job(1, "RT_FB", maxin=n + 1, maxl=big, reach=r, defs=F1),
            job(1, "RT_FF", maxin=n + 1, maxl=big, reach=r, defs=F1)]


def both(prop, mode, reach, reach0=None, **kw):
    """the same obligations with resource limits bypassed and (with floating point abstracted) enforced"""
    defs = kw.pop("defs", [])
    name = kw.pop("name", mode.lower())
    return [job(prop, mode, name=name, reach=reach, defs=defs + ["FORCE=1"], **kw),
            job(prop, mode, name=name + "_limits", reach=reach if reach0 is None else reach0, defs=defs + ["FORCE=0"], **kw)]


def c02(tier, seed, work):
    n = 5 if tier == "quick" else 7
    r = R("a successful decryption", "EPASS", "wrong passphrase", "bad trailing signature")
    return both(2, "DECBUF", r, defs=NOV) + both(2, "DECFILE", r, maxin=n, maxl=(n - 3) * 65536 + 1000, defs=NOV)


def c03(tier, seed, work):
    n = 4 if tier == "quick" else 6
    r = R("a successful encryption", "EPARAM")
    return both(3, "ENCBUF", r, defs=["XFAULTS=1"]) + \
        [job(3, "ENCBUF", name="encbuf_auto", ub=False, reach=R("a successful encryption"), defs=["AUTO=1", "VERBOSE=0", "FORCE=0", "XFAULTS=1"])] + \
        both(3, "ENCFILE", r, maxin=n, maxl=(n - 2) * 65536 + 1000, defs=NOV + ["XFAULTS=1"])


def c04(tier, seed, work):
    n = 5 if tier == "quick" else 7
    r = R("a successful decryption", "EPASS", "wrong passphrase", "bad trailing signature")
    return both(4, "DECBUF", r, defs=["XFAULTS=1"]) + \
        both(4, "DECFILE", r, maxin=n, maxl=(n - 3) * 65536 + 1000, defs=["XFAULTS=1", "VERBOSE=0"]) + \
        both(4, "PREPONLY", R("wrong passphrase", "EPASS"), maxin=4, defs=["XFAULTS=1", "PREP_STOPS=1"]) + \
        [job(4, "INFO", maxin=4, reach=R("info printed"), defs=["XFAULTS=1"])] + \
        both(4, "ENCBUF", R("EPARAM"), defs=["XFAULTS=1"])


def c05(tier, seed, work):
    return both(5, "ENCBUF", R("encrypted"), defs=["XFAULTS=1"], maxl=(1 << 32) + (1 << 20)) + \
        both(5, "DECBUF", R("decrypted", "refused"), defs=["XFAULTS=1"], maxl=(1 << 32) + (1 << 20))


def c06(tier, seed, work):
    n = 4 if tier == "quick" else 6
    return [job(6, "ENCFILE", maxin=n, maxl=(n - 2) * 65536 + 1000, reach=R("read error", "write error", "a successful encryption"), defs=F1 + ["FAULTS=1"]),
            *[job(6, "DECFILE", name="decfile_%d" % i, maxin=n + 1, maxl=min((i + 1) * 65536 + 150, (n - 2) * 65536 + 1000), reach=R("read error", "write error", *(["a successful decryption"] if i < n - 2 else [])),
                  timeout=860 if tier != "quick" else 500, defs=F1 + ["FAULTS=1", "MINL=%d" % (i * 65536 + 151 if i else 0)]) for i in range(n - 1)],
            job(6, "PREPONLY", maxin=4, reach=R("read error"), defs=F1 + ["FAULTS=1"]),
            job(6, "INFO", maxin=4, reach=R("read error"), defs=F1 + ["FAULTS=1"])]


def c11(tier, seed, work):
    n = 4 if tier == "quick" else 5
    x = ["XFAULTS=1"]
    from .specs_par import mainjob
    tool = [mainjob("tool_" + op, [op, " -f", "-v --passphrase=env:PW --passphrase=file:pw -P", "in", " out -"], faults=1, reach=("success", "operation", "failure"), cost=3, b="; every failure", defs=["WIPE=1"]) for op in ("enc", "dec")]
    return tool + both(11, "ENCBUF", [], defs=x) + both(11, "DECBUF", R("EPASS"), defs=x) + \
        both(11, "ENCFILE", [], maxin=n, maxl=(n - 2) * 65536 + 1000, defs=NOV + x + ["FAULTS=1"]) + \
        both(11, "DECFILE", R("EPASS"), maxin=n, maxl=(n - 3) * 65536 + 1000, defs=NOV + x + ["FAULTS=1"]) + \
        both(11, "PREPONLY", R("wrong passphrase"), maxin=4, defs=x + ["FAULTS=1", "PREP_STOPS=1"])


WORLD = ["hash, HMAC, KDF and AES-CTR are ideal: equal inputs give equal outputs, different inputs are unrelated values (their own correctness is C13-C19)",
         "malloc, key expansion, entropy, KDF, memory-limit and CPU-speed results are arbitrary, each may fail",
         "streams deliver an arbitrary byte string; fread/fwrite behave as the C standard says"]


def S(pid, fn, b, out, expl, note):
    Spec(pid, fn, b, out, assumptions=WORLD,
         explanation=expl + " scryptenc.c is compiled to LLVM IR from the current tree and executed symbolically (vf/irx); z3 decides every branch, memory access and assertion.",
         technique="symbolic execution of the LLVM IR of scryptenc.c with z3 (symbolic data, lengths, parameters and faults)", note=note)


DB = "data up to 2^32 + 2^20 bytes for buffers; streams as many 64 KiB blocks as fit 3-6 reads; passphrases up to 2^20 bytes; all contents, parameters, salts"
DO = "longer data; reads of streams that return short without error or end of file"
S("C01", c01, DB, DO, "Each encryption entry point is followed by each decryption entry point in one symbolic run; output bytes, length and parameters must be those that went in.",
  "All data, lengths, passphrases, salts and parameters within the bounds; cryptographic primitives idealised.")
S("C02", c02, DB, DO, "Decryption runs on an arbitrary byte string; success and output are compared with an independent statement of the format for every byte string.",
  "Shows that success requires header checksum, header MAC and final MAC to match the recomputed values over exactly the documented ranges.")
S("C03", c03, DB, DO, "The produced bytes are compared with the documented layout for every input; explicit and automatically chosen parameters.",
  "Byte-exact layout for all inputs within bounds.")
S("C04", c04, DB, DO, "Decryption, preparation and info run on an arbitrary byte string; the code returned and the calls made are compared with the documented order of checks.",
  "Every prefix length, version, header field; checked order.")
S("C05", c05, "buffers up to 2^32 + 2^20 bytes", "longer buffers", "Buffers are objects of exactly the documented (symbolic) length, so any access outside them is refuted by the solver; the input and the bytes after the output are compared.",
  "Every memory access of the real code is an obligation.")
S("C06", c06, DB + "; one read error (the stream may be read again after it), any number of write errors, at any position", DO, "Reads and writes may fail at any position after any number of bytes; verdict and output are compared.",
  "All fault positions within the bounds.")
S("C11", c11, DB + "; every failure point", DO, "Counters of live keys/streams/heap and watches on the storage holding derived keys are asserted on every return path with every resource failing.",
  "Covers the library and the command-line tool's passphrase (main.c with models of the library).")


def c32(tier, seed, work):
    H2 = ["h_c32.c", "w_enc.c"]
    r = R("text")
    js = [IJob("info", H2, SRC, defs=["MODE=0", "W_CAPTURE=1"], env="env_enc.h", reach=r, bounds="every header, inputs of 0..1000 bytes")]
    for m, nm in ((1, "dec"), (2, "enc")):
        for f in (0, 1):
            js.append(IJob("%s_%s" % (nm, "force" if f else "limits"), H2, SRC, defs=["MODE=%d" % m, "FORCE=%d" % f, "W_CAPTURE=1", "W_NOKDF=1"] + (["SOMEN=1"] if tier == "quick" else []), env="env_enc.h", fpabs=True, ub=False, reach=r,
                           timeout=240 if tier == "quick" else 800,
                           bounds=("every header of a 130-byte input" if m == 1 else "every r and p") + ("; log2 N 1, 14, 24, 25, 31-33, 56, 57, 63 or not valid" if tier == "quick" else "; every log2 N")))
    return js


Spec("C32", c32, "every header, memory limit and set of explicit parameters", "the estimated time; failed allocation while formatting sizes; the digits themselves (fprintf's work; humansize is C24)",
     assumptions=["fprintf prints the numbers it is given"],
     explanation="The info operation and the verbose paths of scryptenc_buf and scryptdec_buf are executed symbolically; the numbers handed to fprintf and humansize are compared with the header's.",
     technique="symbolic execution of the LLVM IR of scryptenc.c with z3",
     note="Every header.")


def c08(tier, seed, work):
    H2 = ["h_c08.c", "w_enc.c"]
    th = tier != "quick"
    some = [] if th else ["SOMEN=1"]
    b = "every memory limit, r and p; " + ("every log2 N" if th else "log2 N 1, 10, 31, 32, 57, 63 or not valid") + "; speeds of 1e-3..1e15, time limits of 1e-6..1e12"
    js = []
    kw = dict(env="env_enc.h", fpabs=True, ub=False, timeout=860 if th else 240)
    for m, nm in ((0, "dec"), (1, "enc")):
        js.append(IJob(nm + "_forced", H2, SRC, defs=["MODE=%d" % m, "FORCE=1", "W_NOKDF=1"] + some, bounds=b, reach=R("forced", "not valid"), **kw))
        js.append(IJob(nm + "_limits", H2, SRC, defs=["MODE=%d" % m, "FORCE=0", "W_NOKDF=1"] + some, bounds=b,
                       reach=R("within the limits", "not valid", *(["warned"] if m else ["too big", "too slow", "too big and too slow"])), **kw))
    js.append(IJob("dec_notime", H2, SRC, defs=["MODE=0", "FORCE=0", "W_NOKDF=1", "ZERO=1"] + some, bounds="the same with a time limit of zero", reach=R("too slow", "not valid"), **kw))
    return js


Spec("C08", c08, "every header, explicit parameter set and memory limit; CPU speeds of 1e-3..1e15 and time limits of 1e-6..1e12 and 0; the CPU limit up to one part in 10^9", "other speeds and times; the last digits of the CPU limit",
     assumptions=["memtouse and scryptenc_cpuperf return arbitrary results (C10, C29)"],
     explanation="scryptdec_buf and scryptenc_buf are executed symbolically; whether the key derivation is reached, and the code returned, are compared with the limits. The floating-point test is decided in the logarithm with linear real arithmetic.",
     technique="symbolic execution of the LLVM IR of scryptenc.c with z3 (bit-vectors and linear real arithmetic)",
     note="All memory limits exactly; the CPU limit within 1e-9.")


def c09(tier, seed, work):
    th = tier != "quick"
    return [IJob("pick_%d" % f, ["h_c09.c", "w_enc.c"], SRC, defs=["W_NOKDF=1", "FORCE=%d" % f], env="env_enc.h", fpabs=True, ub=False, reach=R("CPU", "memory"), timeout=860 if th else 400,
                 bounds="every memory limit of 1 MiB to 2^62, speeds of 1e-3..1e15, time limits of 1e-6..1e12; %s" % ("forced" if f else "not forced")) for f in (0, 1)]


Spec("C09", c09, "every memory limit of at least 1 MiB (C10), every CPU speed up to 10^18, time limits of 1 s and 300 s (thorough: 0.1 s, 5e9 s)", "other time limits",
     assumptions=["memtouse and scryptenc_cpuperf return arbitrary results (C10, C29)"],
     explanation="scryptenc_buf is executed symbolically without explicit parameters; the parameters given to the key derivation are compared with the limits in exact floating-point arithmetic.",
     technique="symbolic execution of the LLVM IR of scryptenc.c with z3 (bit-vectors and IEEE floating point)",
     note="All memory limits and speeds.")
