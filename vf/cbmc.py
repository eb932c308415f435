"""CBMC back end: symbolic execution of the real C sources under a harness, deciding the
obligations with a SAT/SMT solver, and replay of counterexamples against the real code."""
import json, os, re, shutil, signal, subprocess, tempfile, threading, time

STOP = threading.Event()      # a violation was confirmed: unfinished tasks end

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
INCDIRS = ["lib", "lib-platform", "lib-platform/crypto", "lib-platform/util", "lib/crypto",
           "lib/scryptenc", "lib/util", "libcperciva/alg", "libcperciva/cpusupport",
           "libcperciva/crypto", "libcperciva/util"]
BASEDEFS = ['CONFIG_H_FILE="%s/cfg/config.h"' % H, "HAVE_CONFIG_H=1",
            'APISUPPORT_CONFIG_FILE="%s/cfg/apisupport-config.h"' % H]


class Job:
    """One harness: C files under /verif/harness plus real sources from the repository."""
    def __init__(self, name, harness, srcs, defs=(), opts=(), unwind=300, timeout=240,
                 cpusupport=True, shim=False, posix=True, replay_libs=(), env="vf_env.h",
                 checks=True, note="", bounds="", undefs=(), sat="cadical", replay_timeout=20,
                 src_defs=None, backend=None, opt="-O1", native_defs=(), thorough_only=False,
                 hang_is_violation=True, adapt=True, native_srcs=(), objbits=None, mem=3, cost=0):
        self.__dict__.update(locals())
        self.engine = "cbmc 6.11.0 symbolic execution of the C sources; " + (backend or "SAT (%s)" % sat)
        self.harness = [harness] if isinstance(harness, str) else list(harness)
        self.srcs = list(srcs)

    def run(self, work, deadline, replaydir, tier):
        return run_job(self, work, deadline, replaydir)


class Result:
    def __init__(self, job):
        self.job = job
        self.status = "error"      # pass | fail | error
        self.msgs = []
        self.vccs = 0
        self.vccs_left = 0
        self.queries = 0
        self.props = 0
        self.reach = []
        self.unreached = []
        self.failures = []         # (property id, text)
        self.solver_s = 0.0
        self.symex_s = 0.0
        self.vars = 0
        self.clauses = 0
        self.wall = 0.0
        self.functions = []
        self.replay = None


def run(cmd, timeout, cwd=None, env=None, mem_gb=None):
    """Run in its own process group; kill the whole group on timeout."""
    pre = None
    if mem_gb:
        import resource
        def pre():
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd, env=env,
                         start_new_session=True, preexec_fn=pre)
    end = time.time() + max(1, timeout)
    try:
        while True:
            try:
                out, _ = p.communicate(timeout=min(1, max(0.05, end - time.time())))
                return p.returncode, out.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                if time.time() >= end or STOP.is_set():
                    raise
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


def cflags(job, native=False):
    f = []
    if job.shim and not native:
        f += ["-I" + os.path.join(H, "shim")]
    f += ["-I" + H, "-I" + os.path.join(H, "cfg")]
    f += ["-I" + os.path.join(REPO, d) for d in INCDIRS]
    defs = list(BASEDEFS)
    if job.cpusupport:
        cs = job.cpusupport if isinstance(job.cpusupport, str) else "cpusupport-config.h"
        defs.append('CPUSUPPORT_CONFIG_FILE="%s/cfg/%s"' % (H, cs))
    if job.posix:
        defs += ["_POSIX_C_SOURCE=200809L", "_XOPEN_SOURCE=700"]
    defs += list(job.defs)
    if native:
        defs += ["VF_NATIVE=1"] + list(job.native_defs)
    f += ["-D" + d for d in defs]
    if job.env:
        f += ["-include", os.path.join(H, job.env)]
    return f


def sources(job):
    out = [os.path.join(H, h) for h in job.harness]
    for s in job.srcs:
        out.append(s if s.startswith("/") else os.path.join(REPO, s))
    return out


LINE = re.compile(r"^\[(?P<id>[^\]]+)\] (?:line (?P<line>\d+) )?(?P<msg>.*): (?P<st>SUCCESS|FAILURE|UNKNOWN|ERROR)$")


def compile_goto(job, d):
    gb = os.path.join(d, job.name + ".gb")
    rc, out = run(["goto-cc", "-std=gnu11"] + cflags(job) + sources(job) + ["-o", gb, "--function", "vf_harness"], 120)
    if rc != 0:
        return None, out
    return gb, out


def cbmc_cmd(job, gb, unwind, unwindset, extra=(), safety=True):
    cmd = ["cbmc", gb, "--unwind", str(unwind), "--unwinding-assertions", "--no-malloc-may-fail",
           "--drop-unused-functions", "--verbosity", "8"]
    if unwindset:
        cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(unwindset.items()))]
    if not job.checks:
        cmd += ["--no-standard-checks"]
    if job.backend:
        cmd += ["--" + job.backend]
    elif job.sat:
        cmd += ["--sat-solver", job.sat]
    if job.objbits:
        cmd += ["--object-bits", str(job.objbits)]
    return cmd + list(job.opts) + list(extra)


def parse(out):
    props = []
    for l in out.splitlines():
        m = LINE.match(l.strip())
        if m:
            props.append((m.group("id"), m.group("line"), m.group("msg"), m.group("st")))
    return props


def stat(out, res):
    m = re.findall(r"Runtime Solver: ([0-9.e+-]+)s", out)
    res.solver_s += sum(float(x) for x in m)
    m = re.findall(r"Runtime (?:Symex|Convert SSA|Post-process): ([0-9.e+-]+)s", out)
    res.symex_s += sum(float(x) for x in m)
    m = re.findall(r"Generated (\d+) VCC\(s\), (\d+) remaining", out)
    if m:
        res.vccs = int(m[-1][0])
        res.vccs_left = int(m[-1][1])
    res.queries += len(re.findall(r"(?:SAT checker|SMT2? solver|Running SMT|Solving with)", out))
    m = re.findall(r"(\d+) variables, (\d+) clauses", out)
    if m:
        res.vars, res.clauses = int(m[-1][0]), int(m[-1][1])


def functions_encoded(gb, job):
    """The functions of the repository that are reachable in the encoded program."""
    rc, out = run(["goto-instrument", "--drop-unused-functions", "--show-goto-functions", "--json-ui", gb], 60)
    names = set()
    try:
        for e in json.loads(out):
            for f in e.get("functions", []) if isinstance(e, dict) else []:
                if not f.get("isBodyAvailable"):
                    continue
                for i in f.get("instructions", []):
                    fl = i.get("sourceLocation", {}).get("file", "")
                    if fl.startswith(REPO + "/"):
                        names.add("%s:%s" % (fl[len(REPO) + 1:], f["name"]))
                    break
    except ValueError:
        pass
    return sorted(names)


def run_job(job, workdir, deadline, replaydir):
    res = Result(job)
    t0 = time.time()
    try:
        _run_job(job, res, workdir, deadline, replaydir)
    except Exception as e:          # an internal failure is an error of the check, never a pass
        import traceback
        res.status = "error"
        res.msgs.append("internal: " + traceback.format_exc())
    res.wall = time.time() - t0
    return res


def _run_job(job, res, workdir, deadline, replaydir):
    d = os.path.join(workdir, job.name)
    os.makedirs(d, exist_ok=True)
    gb, out = compile_goto(job, d)
    if gb is None:
        res.msgs.append("goto-cc failed:\n" + out[-3000:])
        return
    res.functions = functions_encoded(gb, job)
    unwind, unwindset = job.unwind, {}
    for attempt in range(6):
        tmo = min(job.timeout, deadline - time.time())
        if tmo < 2:
            res.msgs.append("no time left")
            return
        rc, out = run(cbmc_cmd(job, gb, unwind, unwindset, ["--slice-formula"]), tmo, mem_gb=max(4, job.mem * 2))
        open(os.path.join(d, "cbmc.out"), "w").write(out)
        stat(out, res)
        if rc is None:
            res.msgs.append("solver time limit (%ds)" % tmo)
            return
        props = parse(out)
        if rc not in (0, 10) or not props:
            res.msgs.append("cbmc exit %s:\n%s" % (rc, out[-3000:]))
            return
        res.props = len(props)
        fails = [p for p in props if p[3] == "FAILURE"]
        res.reach = [p[2] for p in fails if p[2].startswith("REACH:")]
        res.unreached = [p[2] for p in props if p[2].startswith("REACH:") and p[3] == "SUCCESS"]
        fails = [p for p in fails if not p[2].startswith("REACH:")]
        unw = [p for p in fails if "unwinding assertion" in p[2]]
        if not fails and any(p[3] not in ("SUCCESS", "FAILURE") for p in props):
            res.msgs.append("undecided obligations")
            return
        real = [p for p in fails if p not in unw]
        if unw and not real and job.adapt and attempt < 5:
            # A loop needs more iterations than assumed: raise the bound of those loops only.
            for p in unw:
                fn = p[0].rsplit(".unwind.", 1)[0]
                m = re.search(r"loop (\d+)", p[2])
                loop = "%s.%s" % (fn, m.group(1) if m else "0")
                unwindset[loop] = (unwindset.get(loop) or unwind) * 4
                if unwindset[loop] > 20000:
                    break
            else:
                continue
        break
    res.failures = [(p[0], "%s (%s line %s)" % (p[2], p[0], p[1])) for p in real + unw]
    if not res.failures:
        if res.unreached:
            res.msgs.append("vacuous: not reached: " + "; ".join(res.unreached))
            return
        res.status = "pass"
        return
    # Counterexamples: replay each (a few) against the real code, report what reproduces.
    fails = sorted(real, key=lambda p: (0 if "VF:" in p[2] else 1)) + unw
    unconfirmed = []
    for p in fails[:6]:
        if time.time() > deadline - 5:
            break
        tmo = min(job.timeout * 2, deadline - time.time())
        extra = ["--property", p[0], "--trace", "--json-ui"]
        rc, out = run(cbmc_cmd(job, gb, unwind, unwindset, extra), tmo, mem_gb=max(4, job.mem * 2))
        vals, desc = extract_inputs(out)
        if vals is None:
            unconfirmed.append("%s: no trace (%s)" % (p[2], desc))
            continue
        os.makedirs(replaydir, exist_ok=True)
        rdir = os.path.join(replaydir, job.name)
        ok, text = replay(job, vals, rdir, p)
        if ok:
            res.status = "fail"
            res.replay = rdir
            res.msgs.append("%s: %s" % (p[2], text.strip()[:600]))
            return
        unconfirmed.append("%s: %s" % (p[2], text.strip()[:600]))
    res.msgs.append("counterexample(s) not reproduced natively:\n" + "\n".join(unconfirmed))


def extract_inputs(out):
    try:
        data = json.loads(out)
    except Exception as e:
        return None, "bad json " + out[-300:]
    trace = None
    for e in data:
        if isinstance(e, dict) and "result" in e:
            for r in e["result"]:
                if r.get("status") == "FAILURE" and "trace" in r:
                    trace = r["trace"]
        if isinstance(e, dict) and "trace" in e:
            trace = e["trace"]
    if trace is None:
        return None, "no failing trace"
    vals = []
    for s in trace:
        if s.get("stepType") != "assignment" or s.get("hidden"):
            continue
        lhs = s.get("lhs", "")
        if not lhs.startswith("vf_inval_"):
            continue
        v = s.get("value", {})
        b = v.get("binary")
        if b is None:
            continue
        vals.append((lhs[len("vf_inval_"):], int(b, 2)))
    return vals, ""


def build_native(job, d, exe="replay"):
    os.makedirs(d, exist_ok=True)
    exe = os.path.join(d, exe)
    cmd = (["gcc", "-std=gnu11", "-g", job.opt, "-w", "-fsanitize=address,undefined",
            "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-msse2", "-mssse3", "-maes",
            "-msha", "-mrdrnd"]
           + cflags(job, native=True) + sources(job)
           + [os.path.join(REPO, s) if not s.startswith("/") else s for s in job.native_srcs])
    obj = os.path.join(d, "native.o")
    rc, out = run(["gcc", "-g", "-O1", "-fsanitize=address", "-c", os.path.join(H, "native.c"), "-o", obj], 60)
    if rc != 0:
        return None, out
    rc, out = run(cmd + [obj, "-o", exe, "-lm"] + list(job.replay_libs), 120)
    if rc != 0:
        return None, out
    return exe, " ".join(cmd)


def replay(job, vals, rdir, prop):
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    inp = os.path.join(rdir, "inputs.txt")
    with open(inp, "w") as f:
        for t, v in vals:
            f.write("%s %d\n" % (t, v))
    exe, msg = build_native(job, rdir)
    if exe is None:
        return False, "native build failed: " + msg[-1500:]
    env = dict(os.environ, VF_REPLAY=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:detect_stack_use_after_return=1:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
    rc, out = run([exe], job.replay_timeout, env=env, cwd=rdir)
    with open(os.path.join(rdir, "README"), "w") as f:
        f.write("Counterexample for %s\nobligation: %s %s\nbuild: %s\nrun: VF_REPLAY=%s %s\nexit: %s\noutput:\n%s\n"
                % (job.name, prop[0], prop[2], msg, inp, exe, rc, out))
    if rc is None:
        return (True, "replay does not terminate within %ds" % job.replay_timeout) if job.hang_is_violation else (False, "replay timeout")
    if rc == 99 or rc == 98 or rc < 0:
        return True, "replay exit %d: %s" % (rc, first_lines(out))
    return False, "replay exit %d: %s" % (rc, first_lines(out))


def first_lines(out):
    ls = [l for l in out.splitlines() if re.search(r"VF-|ERROR|runtime error|Assertion|SUMMARY", l)]
    return " | ".join(ls[:4]) if ls else out[:300]
