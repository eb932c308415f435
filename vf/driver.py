"""check <ID>...: run the solver obligations of a property, write its evidence file."""
import concurrent.futures, json, os, shutil, sys, tempfile, threading, time, importlib
from . import cbmc

VERIF = cbmc.VERIF
TOTAL_MEM = 26


class Pool:
    """Runs tasks in parallel, admitting them by their declared memory need."""
    def __init__(self, mem, cpus):
        self.mem, self.cpus = mem, cpus
        self.cv = threading.Condition()

    def run(self, task, fn):
        need = min(getattr(task, "mem", 3), TOTAL_MEM)
        with self.cv:
            while self.mem < need or self.cpus < 1:
                self.cv.wait()
            self.mem -= need
            self.cpus -= 1
        try:
            return fn(task)
        finally:
            with self.cv:
                self.mem += need
                self.cpus += 1
                self.cv.notify_all()


def run_property(pid, tier, seed, only=None, keep=False, quiet=False):
    from . import specs
    t0 = time.time()
    spec = specs.SPECS[pid]
    limit = 800 if tier == "quick" else 6 * 3600
    deadline = t0 + limit
    work = tempfile.mkdtemp(prefix="vf_%s_" % pid)
    replaydir = os.path.join(VERIF, "replay_out", pid)
    shutil.rmtree(replaydir, ignore_errors=True)
    results = []
    cbmc.STOP.clear()
    try:
        tasks = spec.tasks(tier, seed, work)
        if only:
            tasks = [t for t in tasks if only in t.name]
        pool = Pool(TOTAL_MEM, os.cpu_count() or 4)
        stop = threading.Event()

        def one(t):
            if stop.is_set():
                r = cbmc.Result(t)
                r.status = "skipped"
                return r
            r = pool.run(t, lambda t: t.run(work, deadline, replaydir, tier))
            if r.status == "fail":
                stop.set()
                if not match_known(load_known(pid), r):
                    cbmc.STOP.set()
            if not quiet:
                print("%-34s %-7s %6.1fs vcc=%d props=%d %s" % (t.name, r.status, r.wall, r.vccs, r.props,
                      " | ".join(m[:1500] for m in r.msgs)), file=sys.stderr, flush=True)
            return r
        with concurrent.futures.ThreadPoolExecutor(max_workers=64) as ex:
            results = list(ex.map(one, sorted(tasks, key=lambda t: -getattr(t, "cost", 0))))
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    known = load_known(pid)
    viol = [r for r in results if r.status == "fail"]
    fresh = []
    for r in viol:
        k = match_known(known, r)
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        else:
            fresh.append(r)
    bad = [r for r in results if r.status not in ("pass", "fail", "skipped")]
    write_evidence(pid, tier, seed, spec, results, len(fresh), time.time() - t0)
    if fresh:
        for r in fresh:
            print("property %s, obligation set %s: %s" % (pid, r.job.name, " | ".join(r.msgs)[:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, fresh[0].replay or replaydir))
        return 1
    if bad:
        for r in bad:
            print("INCONCLUSIVE %s %s: %s" % (pid, r.job.name, " | ".join(r.msgs)[:4000]))
        return 2
    print("OK property=%s: %d obligation sets, %d obligations, %.1fs" %
          (pid, len(results), sum(r.props for r in results), time.time() - t0))
    return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k.get("property") == pid and k.get("status") == "known"]


def match_known(known, r):
    for k in known:
        if k["task"] == r.job.name and all(any(o in m for m in r.msgs) for o in k["obligation"]):
            return k
    return None


def write_evidence(pid, tier, seed, spec, results, violations, wall):
    fn = sorted({f for r in results for f in r.functions})
    ok = [r for r in results if r.status == "pass"]
    cov = {
        "explanation": spec.explanation,
        "obligation_sets": [
            {"name": r.job.name, "result": r.status, "bounds": getattr(r.job, "bounds", ""), "engine": getattr(r.job, "engine", "cbmc"),
             "obligations": r.props, "vccs_generated": r.vccs, "vccs_after_simplification": r.vccs_left,
             "sat_variables": r.vars, "sat_clauses": r.clauses, "queries": r.queries,
             "solver_s": round(r.solver_s, 2), "symbolic_execution_s": round(r.symex_s, 2), "wall_s": round(r.wall, 2),
             "reachability_witnesses": len(r.reach)} for r in results],
        "functions_encoded": fn,
        "obligations": sum(r.props for r in results),
        "discharged": sum(r.props for r in ok),
        "queries": sum(r.queries for r in results),
        "solver_s": round(sum(r.solver_s for r in results), 2),
        "bounds": spec.bounds,
        "outside_bounds": spec.outside,
        "exhaustive": False,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "assumptions": spec.assumptions, "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    args = [a for a in argv[1:] if not a.startswith("-")]
    only = next((a[7:] for a in argv if a.startswith("--only=")), None)
    for a in argv:
        if a == "--thorough":
            tier = "thorough"
        if a == "--quick":
            tier = "quick"
    rc = 0
    for pid in args:
        r = run_property(pid, tier, seed, only, keep="--keep" in argv)
        rc = max(rc, r) if r != 1 and rc != 1 else 1
    return rc
