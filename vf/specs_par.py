"""C25-C28: parsing and passphrase entry."""
from .specs import Spec
from .cbmc import Job
from .irx_job import IJob


def c25(tier, seed, work):
    js = []
    th = tier != "quick"
    def j(name, T, kind, bounds, ln, extra=(), cost=0, reach=("accepted", "not a number", "out of range"), b=""):
        tm = {"int8_t": 7, "int16_t": 15, "int": 31, "int64_t": 63}.get(T)
        d = ["T=%s" % T, "KIND=%d" % kind, "BOUNDS=%d" % bounds, "LEN=%d" % ln] + list(extra)
        if kind == 1:
            d += ["TMIN=(-INTMAX_C(%d)-1)" % (2 ** tm - 1), "TMAX=INTMAX_C(%d)" % (2 ** tm - 1)]
        js.append(IJob(name, ["h_c25.c"], [], env="env_str.h", cpusupport=False, defs=d, ub=False, cost=cost, timeout=240 if not th else 800,
                       reach=["REACH:" + x for x in reach], bounds=b or "all strings of %d characters, all bounds" % ln))
    na = ("not a number",)
    full = ("accepted", "not a number", "out of range")
    n = 4 if not th else 5
    for T in ["uint8_t", "uint16_t", "uint32_t", "uint64_t"]:
        j("%s_len%d" % (T, n), T, 0, 0, n)
        for ln in (range(0, n + 1) if T == "uint32_t" else [n]):
            for bd in (1, 2):
                j("%s_b%d_len%d" % (T, bd, ln), T, 0, bd, ln, reach=full if ln else na)
    for T in ["int8_t", "int16_t", "int", "int64_t"]:
        for ln in (range(0, n + 1) if T == "int" else [n]):
            j("%s_len%d" % (T, ln), T, 1, 1, ln, reach=full if ln else na)
    for base in (10, 16, 8):
        j("base%d" % base, "uint32_t", 0, 2, 3, ["BASE=%d" % base])
        j("base%d_trail" % base, "uint32_t", 0, 2, 3, ["BASE=%d" % base, "TRAIL=1"])
        j("base%d_signed" % base, "int", 1, 1, 3, ["BASE=%d" % base])
    for ln in (13, 20, 21) if not th else (6, 8, 10, 12, 13, 14, 16, 18, 20, 21, 22):
        j("dec_u64_%d" % ln, "uint64_t", 0, 2, ln, ["SHAPE=1", "BASE=10"], reach=("accepted", "not a number") if ln < 20 else full, b="two arbitrary characters, then %d digits, then an arbitrary one" % (ln - 3), cost=2)
        j("dec_i64_%d" % ln, "int64_t", 1, 1, ln, ["SHAPE=1", "BASE=10"], b="two arbitrary characters, then %d digits, then an arbitrary one" % (ln - 3), cost=2)
        if th or ln == 13:
            j("dec_u32_%d" % ln, "uint32_t", 0, 1, ln, ["SHAPE=1", "BASE=10"], b="two arbitrary characters, then %d digits, then an arbitrary one" % (ln - 3), cost=2)
    for ln in (0, 1, 3):
        j("double_len%d" % ln, "double", 2, 0, ln, reach=full if ln else na, b="every value strtod can return")
        j("double_b_len%d" % ln, "double", 2, 3, ln, reach=full if ln else na, b="every value strtod can return, all bounds")
    j("double_trail", "double", 2, 3, 3, ["TRAIL=1"], reach=full, b="every value strtod can return, all bounds")
    return js


Spec("C25", c25, "all strings of up to 4 characters (thorough: 5); blank/sign/decimal numbers of up to 22 characters; all bounds", "longer strings; the text of floating-point numbers (strtod itself is assumed)",
     assumptions=["strtoumax/strtoimax/isspace as in the C standard (modelled on the actual characters)", "strtod returns any value, end and range error; in the C locale"],
     explanation="The PARSENUM macros are executed symbolically on symbolic strings and bounds, and compared with the mathematical value of the string.",
     technique="symbolic execution of the LLVM IR of parsenum.h instantiations with z3 over all strings within the bounds",
     note="All characters and all bounds; target types of 8 to 64 bits, signed and unsigned, and double.")


def c26(tier, seed, work):
    js = []
    th = tier != "quick"
    def j(n, ls, missing):
        name = "n%d_%s%s" % (n, "".join(map(str, ls[:n])), "_m" if missing else "")
        js.append(IJob(name, ["h_c26.c"], ["libcperciva/util/getopt.c"], env="env_opt.h", cpusupport=False,
                       defs=["N=%d" % n, "L1=%d" % ls[0], "L2=%d" % ls[1], "L3=%d" % ls[2]] + (["MISSING=1"] if missing else []),
                       bounds="%d arguments of %s characters" % (n, ls[:n]), cost=sum(ls), timeout=300 if not th else 850, reach=[]))
    for m in (0, 1):
        j(0, (0, 0, 0), m)
        for a in range(0, 7 - m if not th else 9):
            j(1, (a, 0, 0), m)
    two = [(a, b) for a in range(0, 6) for b in range(0, 4) if a + b <= 6 or th]
    for k, (a, b) in enumerate(two):
        j(2, (a, b, 0), k % 2)
    three = [(2, 2, 2), (2, 2, 1), (4, 2, 2), (3, 2, 2), (2, 3, 2), (2, 0, 2), (4, 1, 3)]
    for k, t in enumerate(three if not th else [(a, b, c) for a in range(1, 6) for b in range(0, 4) for c in range(0, 4)]):
        j(3, t, (k + 1) % 2)
    return js


Spec("C26", c26, "up to 3 arguments, in total up to 10 characters in the listed length combinations, any characters; three short and three long options with and without arguments, one the prefix of another",
     "longer command lines and other option sets (the option names are those of the harness; main.c's are covered by C31)",
     explanation="getopt.c and the GETOPT macros are executed symbolically on symbolic command lines next to an independent statement of the documented forms.",
     technique="symbolic execution of the LLVM IR of getopt.c and its macros with z3 over all characters of bounded command lines",
     note="All characters; bounded number and length of arguments; twice in succession with optreset.")


def c27(tier, seed, work):
    th = tier != "quick"
    js = []
    for n in range(0, 17 if not th else 24):
        js.append(IJob("parse_len%d" % n, ["h_c27.c"], ["lib/util/passphrase_entry.c"], env="env_pass.h", cpusupport=False,
                       defs=["MODE=0", "LEN=%d" % n], reach=["REACH:refused"] + (["REACH:accepted"] if n >= 4 else []), bounds="all strings of %d characters" % n))
    js.append(IJob("sources", ["h_c27.c"], ["lib/util/passphrase_entry.c"], env="env_pass.h", cpusupport=False, defs=["MODE=1"],
                   bounds="every source, values of up to 3 characters, every failure"))
    for n in list(range(0, 7 if not th else 11)) + [2045, 2046, 2047, 2048, 2049] + ([4096, 4097] if th else []):
        big = n > 100
        js.append(IJob("file_len%d" % n, ["h_c27.c"], ["libcperciva/util/readpass_file.c"], env="env_pass.h", cpusupport=False,
                       defs=["MODE=2", "LEN=%d" % n] + (["A=2", "B=4"] if big else []), reach=["REACH:refused"] + (["REACH:success"] if n < 2048 else []),
                       bounds="files of %d bytes%s" % (n, ", of which the first 2 and last 4 are arbitrary" if big else ""), cost=3 if big else 0))
    return js


Spec("C27", c27, "source strings of up to 16 (thorough: 23) characters; files of up to 6 (thorough: 10) arbitrary bytes and of 2045..2049 bytes with arbitrary ends; every open, read, close and allocation failure",
     "longer strings; NUL bytes inside files; other contents of long files",
     assumptions=["insecure_memzero wipes (C33)", "fgets/fgetc/getenv/strdup as in the C standard"],
     explanation="passphrase_entry.c and readpass_file.c are executed symbolically with symbolic strings, file contents and failures; buffers that held the passphrase must be zero when released.",
     technique="symbolic execution of the LLVM IR of passphrase_entry.c and readpass_file.c with z3",
     note="All characters and failures within the bounds.")


def c28(tier, seed, work):
    th = tier != "quick"
    js = []
    def j(name, dev, conf, rounds, maxl, narr, sigset=9, extra=(), b="", reach=(), cost=0):
        js.append(IJob(name, ["h_c28.c"], ["libcperciva/util/readpass.c"], env="env_pass.h", cpusupport=False,
                       defs=["DEVTTY=%d" % dev, "CONFIRM=%d" % conf, "ROUNDS=%d" % rounds, "MAXL=%d" % maxl, "NARR=%d" % narr, "SIGSET=%d" % sigset] + list(extra), cost=cost,
                       reach=["REACH:" + x for x in (reach or (["success", "failure"] + (["confirmed"] if conf else [])))],
                       timeout=240 if not th else 850,
                       bounds="source %d, lines of up to %d characters, %d lines, %d signals%s" % (dev, maxl, rounds, narr, b)))
    for dev in (0, 1, 2):
        j("once_%d" % dev, dev, 0, 1, 3, 0)
        j("signal_%d" % dev, dev, 0, 1, 1, 1)
        j("confirm_%d" % dev, dev, 1, 4, 2, 0, cost=3)
    j("confirm_sig", 2, 1, 2, 1, 1, 3, cost=4)
    j("signals2", 2, 0, 1, 1, 2, 2, cost=5)
    j("twice", 0, 0, 1, 1, 1, 4, ["TWICE=1"], b="; two calls", cost=4)
    for n in (2046, 2047, 2048):
        j("long_%d" % n, 1, 0, 1, 1, 0, extra=["LONG=%d" % n], b="; a line of %d characters" % n, cost=2)
    if th:
        j("confirm6", 1, 1, 6, 2, 0, cost=9)
        j("confirm_sig2", 1, 1, 4, 1, 2, 3, cost=9)
        j("once3", 1, 0, 1, 5, 1, 9, cost=9)
        j("signals3", 1, 0, 1, 1, 3, 3, cost=9)
    return js


Spec("C28", c28, "lines of up to 3 arbitrary characters (or 2046..2048 with arbitrary ends), up to 4 lines with confirmation, up to 2 signals arriving at any call, every terminal, read, open, close and allocation failure",
     "more entries or signals; signals arriving between instructions of the program rather than at calls; failures to restore the terminal mode; entries with NUL bytes",
     assumptions=["insecure_memzero wipes (C33)", "fgets, tcsetattr, sigaction and raise as POSIX says", "restoring the terminal mode succeeds"],
     explanation="readpass.c is executed symbolically against a model of the terminal (its mode a symbolic structure), the signal table and the entered lines; signals may be delivered at every call.",
     technique="symbolic execution of the LLVM IR of readpass.c with z3 (signals, failures and entries symbolic)",
     note="All signal and failure combinations within the bounds.")


MAINSRC = ["main.c", "libcperciva/util/getopt.c", "lib/util/passphrase_entry.c", "lib/scryptenc/scryptenc_print_error.c"]


def mainjob(name, shape, faults=0, partial=0, reach=(), b="", cost=1, timeout=300, defs=()):
    return IJob(name, ["h_c31.c"], MAINSRC, env="env_main.h", cpusupport=False, ub=False,
                defs=["SHAPE=" + ",".join('"%s"' % s for s in shape), "FAULTS=%d" % faults, "PARTIAL=%d" % partial] + list(defs),
                reach=["REACH:" + x for x in reach], cost=cost, timeout=timeout,
                bounds="command lines: " + " ".join("{%s}" % s for s in shape) + b)


OPS = "enc dec info"


def c31(tier, seed, work):
    th = tier != "quick"
    js = []
    ok = ("success", "operation")
    full = ok + ("refused",)
    js.append(mainjob("ops", ["enc dec info --version --versio encx -f - ", "in -", " out"], reach=full + ("version",)))
    for op in OPS.split():
        full = ok + ("refused",) if op != "info" else ("success", "refused")
        js.append(mainjob("flags_" + op, [op, " -f -v -fvf -Pv -fx --foo --logNx -- -", " -v -P -- --", "in - --", " out -f"] if not th else
                          [op, " -f -v -fv -vf -P -fPv -x -fx --foo --logNx -- -", " -f -v -P -- --", " -f -v -P", "in - --", " out - -f", " x"], reach=full, cost=6, timeout=300 if not th else 850))
        js.append(mainjob("value_" + op, [op, "--logN -r -p -M -m -t", "1 -1 x --", "in", " out"], partial=1, reach=full, cost=5, b="; any values"))
        js.append(mainjob("attached_" + op, [op, "--logN=1 --logN= --logN=-1 -r1 -p1 -M1 -m1 -t1 -fr1 -r=1 -t-1 -vm1 -Pt1", "in -"], partial=1, reach=full, cost=4, b="; any values"))
        js.append(mainjob("missing_" + op, [op, " -f in", "--logN -r -p -M -m -t --passphrase -ft -vM", " in"], partial=1, reach=("refused",), b="; any values"))
    full = ok + ("refused",)
    js.append(mainjob("params", ["enc dec", " --logN=1", " -r2", " -p3", "in"], reach=full, cost=5, b="; any values"))
    js.append(mainjob("params2", ["enc", "-p1", "-fr2 -r2", "--logN=3", " -M3 -m1", "in", "out"], reach=full, cost=5, b="; any values"))
    js.append(mainjob("repeat", ["enc dec", "-r1 -M1 -m1 -t1 -v", "-r2 -M2 -m2 -t2 -f", "in"] if not th else ["enc dec", "-r1 -p1 -M1 -m1 -t1 -v", "-r2 -p2 -M2 -m2 -t2 -f", " -r3 -p3 -M3 -m3 -t3", "in", " out"], reach=full, cost=5, b="; any values"))
    src = "dev:tty-stdin dev:stdin-once dev:tty-once env:PW env: file:pw file:a:b devx foo:bar dev:tty : file -P"
    js.append(mainjob("source", [OPS, "--passphrase", src, " -P --passphrase=env:X", "in -"], reach=full, cost=4))
    js.append(mainjob("source2", ["enc dec", "--passphrase=dev:tty-once --passphrase=file:/x=y --passphrase= -Pf -P", " -v --passphrase=file:x -P", "in -", " out"], reach=full, cost=4))
    fs = ("success", "operation", "failure")
    js.append(mainjob("faults_enc", ["enc", " --passphrase=env:PW --passphrase=file:pw", "in -", " out -"], faults=1, reach=fs, cost=3, b="; every failure"))
    js.append(mainjob("faults_dec", ["dec", " --passphrase=env:PW --passphrase=file:pw", "in -", " out -"], faults=1, reach=fs, cost=3, b="; every failure"))
    js.append(mainjob("faults_flag", ["enc dec", "-fv -vM1 -P -t1", "in", " out"], faults=1, reach=fs, cost=3, b="; every failure"))
    js.append(mainjob("faults_info", ["info", "in -", " out"], faults=1, reach=("success", "failure"), b="; every failure"))
    return js


Spec("C31", c31, "command lines of up to 7 arguments put together from the listed strings; all values that the text of numbers may denote (integers, floating point including NaN and infinities, sizes), including none; every failure of opening, passphrase entry, the operation (every error code), flushing and closing",
     "option names other than those listed (their parsing in general is C26); the text of numbers (C25), sizes (C24) and what the library does (C01-C09); failures of allocation in option parsing; failure to write the --version line",
     assumptions=["strtod, strtoimax, strtoumax return any value", "the library functions do what they are documented to do (C01-C09, C27, C28, C32)", "exit() itself is not told about write failures: what is buffered must be flushed before"],
     explanation="main.c, getopt.c, passphrase_entry.c and scryptenc_print_error.c are executed symbolically; the library, streams and exit are recording models with symbolic outcomes, and every command line is compared with an independent reading of it.",
     technique="symbolic execution of the LLVM IR of main.c and getopt.c with z3; values, outcomes and failures symbolic",
     note="All values and failures; command lines from the listed strings.")


def c07(tier, seed, work):
    th = tier != "quick"
    fs = ("success", "operation", "failure")
    js = []
    n = 0
    for inn in ("in", "-"):
        for outn in ("out", "in", "-", ""):
            for fl in ("", "-f", "-v"):
                n += 1
                js.append(mainjob("dec%d" % n, ["dec", fl, " --passphrase=env:PW --passphrase=file:out", inn, outn], faults=1, reach=fs, cost=2, b="; every failure"))
    js.append(mainjob("params", ["dec", "-M1 -m1 -t1 --logN=1 -r2 -p3", " -fv", "in -", "out"], partial=1, faults=1, reach=fs + ("refused",), cost=5, b="; any values, every failure"))
    js.append(mainjob("other", ["enc info", " -f", "in - ", " out -"], faults=1, reach=fs + ("refused",), cost=2, b="; every failure"))
    return js


Spec("C07", c07, "decryption with every combination of input and output (named, standard, the same name), force and verbose flags and passphrase sources; all values of the limits; every failure of opening, passphrase entry, header verification (every error code), copying, flushing and closing",
     "what scryptdec_file_prep verifies (C02, C03, C08); other command lines (C31); output that was redirected by the shell",
     assumptions=["scryptdec_file_prep succeeds only for a verified header and passphrase (C02, C03)", "files are opened by fopen, freopen, open or creat"],
     explanation="main.c is executed symbolically with recording models of the streams and the library; opening the output is asserted to come after a successful preparation, and only the named output is ever opened for writing.",
     technique="symbolic execution of the LLVM IR of main.c with z3; outcomes and failures symbolic",
     note="All failure combinations for the listed command lines.")
