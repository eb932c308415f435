"""A task that executes a harness symbolically with the LLVM IR engine, and replays counterexamples natively."""
import json, os, shutil, subprocess, sys, time
from . import cbmc
from .cbmc import Job, Result, H, REPO, VERIF, run, cflags, sources, replay

CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
LINK = "/usr/bin/llvm-link-18" if os.path.exists("/usr/bin/llvm-link-18") else "llvm-link"


class IJob(Job):
    def __init__(self, name, harness, srcs, ub=True, irflags=(), maxpaths=None, reach=None, stop_first=True, qtimeout=30,
                 expect_inconclusive=False, iropt="-O1", harness_opt=None, fpabs=False, optional=False, cellmax=4096, **kw):
        super().__init__(name, harness, srcs, **kw)
        self.ub, self.irflags, self.maxpaths, self.stop_first, self.qtimeout = ub, list(irflags), maxpaths, stop_first, qtimeout
        self.iropt = iropt
        self.fpabs = fpabs
        self.cellmax = cellmax
        self.optional = optional
        self.reach = reach
        self.engine = "irx: path-wise symbolic execution of LLVM IR (clang-18 %s), z3" % iropt

    def run(self, work, deadline, replaydir, tier):
        res = Result(self)
        t0 = time.time()
        try:
            self._run(res, work, deadline, replaydir)
        except Exception:
            import traceback
            res.status = "error"
            res.msgs.append("internal: " + traceback.format_exc())
        res.wall = time.time() - t0
        return res

    def compile(self, d):
        os.makedirs(d, exist_ok=True)
        objs = []
        hs = [os.path.join(H, h) for h in self.harness] + [os.path.join(H, "vf_libc.c")]
        for k, f in enumerate(hs + [s if s.startswith("/") else os.path.join(REPO, s) for s in self.srcs]):
            o = os.path.join(d, "%d.ll" % k)
            real = k >= len(hs)
            fl = [CLANG, self.iropt, "-S", "-emit-llvm", "-w", "-std=gnu11", "-fno-vectorize", "-fno-slp-vectorize",
                  "-fno-unroll-loops", "-ffp-contract=off", "-fno-builtin-printf", "-fno-builtin-fprintf", "-ffreestanding" if k == len(hs) - 1 else "-fno-builtin-strdup", "-msse2", "-mssse3", "-maes", "-msha", "-mrdrnd", "-fno-jump-tables",
                  "-DVF_IRX=1", "-fno-discard-value-names", "-g1" if False else "-g0"]
            if self.ub and real:
                fl += ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,float-cast-overflow", "-fsanitize-trap=all"]
            fl += self.irflags + cflags(self) + [f, "-o", o]
            rc, out = run(fl, 120)
            if rc != 0:
                return None, out
            objs.append(o)
        ll = os.path.join(d, "all.ll")
        rc, out = run([LINK, "-S", "-o", ll] + objs, 120)
        return (ll, out) if rc == 0 else (None, out)

    def _run(self, res, work, deadline, replaydir):
        d = os.path.join(work, self.name)
        ll, out = self.compile(d)
        if ll is None and self.optional:
            # the harness sets the code's internal state; not possible for this version of the code
            res.status = "pass"
            res.msgs.append("skipped: the internal state this task starts from has changed")
            return
        if ll is None:
            res.msgs.append("compilation failed:\n" + out[-3000:])
            return
        tmo = min(self.timeout, deadline - time.time())
        outf = os.path.join(d, "result.json")
        rc, out = run([sys.executable, "-m", "vf.irx_run", ll, outf, str(tmo), json.dumps(
            dict(maxpaths=self.maxpaths, stop_first=self.stop_first, qtimeout=self.qtimeout, fpabs=self.fpabs, cellmax=self.cellmax))], tmo + 15, cwd=VERIF, mem_gb=max(4, self.mem * 2))
        if rc is None or not os.path.exists(outf):
            res.msgs.append("engine ended with %s: %s" % (rc, out[-3000:]))
            return
        r = json.load(open(outf))
        s = r["stats"]
        res.props = s["obligations"]
        res.queries = s["queries"]
        res.vccs = s["obligations"]
        res.vccs_left = s["obligations"] - s["syntactic"]
        res.paths = s["paths"]
        res.solver_s = s["solver_s"]
        res.symex_s = r["wall"] - s["solver_s"]
        res.functions = sorted(r["functions"])
        res.reach = r["reached"]
        if r["violations"]:
            unconf = []
            for k, v in enumerate(r["violations"][:5]):
                ok, text = self.replay(v, os.path.join(replaydir, self.name), k)
                m = "%s (%s; in %s)" % (v["msg"], v["kind"], " > ".join(v["stack"]))
                if ok:
                    res.status = "fail"
                    res.replay = os.path.join(replaydir, self.name)
                    res.msgs.append(m + ": " + text)
                    return
                unconf.append(m + ": not reproduced natively: " + text)
            res.msgs += unconf
            return
        if r["error"]:
            res.msgs.append(r["error"])
            return
        want = self.reach
        if want is None:
            want = self.expected_reach()
        missing = [w for w in want if w not in r["reached"]]
        if missing:
            res.msgs.append("vacuous: not reached: " + "; ".join(missing))
            return
        if not s["paths"]:
            res.msgs.append("no path completed")
            return
        res.status = "pass"

    def expected_reach(self):
        import re
        want = set()
        for h in self.harness:
            rc, out = run([CLANG, "-E", "-P", "-w", "-std=gnu11", "-DVF_IRX=1"] + cflags(self) + [os.path.join(H, h)], 60)
            want |= {"REACH:" + m for m in re.findall(r'vf_sym_reach\("REACH:"\s*"([^"]*)"\)', out)}
        return want

    def replay(self, v, rdir, k):
        shutil.rmtree(rdir, ignore_errors=True)
        os.makedirs(rdir)
        inp = os.path.join(rdir, "inputs.txt")
        with open(inp, "w") as f:
            for x in v["inputs"]:
                if x[0] == "arr":
                    f.write("arr %d %d %s\n" % (x[2], len(x[3]), " ".join("%d %d" % tuple(e) for e in x[3])))
                else:
                    f.write("%s %d\n" % (x[0], x[1]))
        exe, msg = cbmc.build_native(self, rdir)
        if exe is None:
            return False, "native build failed: " + msg[-1500:]
        env = dict(os.environ, VF_REPLAY=inp,
                   ASAN_OPTIONS="detect_leaks=0:exitcode=98:detect_stack_use_after_return=1:allocator_may_return_null=1",
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=98")
        rc, out = run([exe], self.replay_timeout, env=env, cwd=rdir)
        with open(os.path.join(rdir, "README"), "w") as f:
            f.write("Counterexample for %s\nobligation: %s\nbuild: %s\nrun: VF_REPLAY=%s %s\nexit: %s\noutput:\n%s\n"
                    % (self.name, v["msg"], msg, inp, exe, rc, out))
        if rc is None:
            return (True, "replay does not terminate") if self.hang_is_violation else (False, "replay timeout")
        if rc in (98, 99) or rc < 0:
            return True, "replay exit %d: %s" % (rc, cbmc.first_lines(out))
        return False, "replay exit %d: %s" % (rc, cbmc.first_lines(out))
