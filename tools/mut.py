#!/usr/bin/env python3
"""mut.py PROP[:task] FILE OLD NEW ...: run the check of PROP against a scratch copy of /repo with OLD replaced by NEW in FILE."""
import sys, os, subprocess, shutil, tempfile, time
def run(prop, f, old, new):
    w = tempfile.mkdtemp(prefix="mut_")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/r"])
        p = os.path.join(w, "r", f)
        s = open(p).read()
        if s.count(old) < 1:
            return "NOT FOUND: " + old
        open(p, "w").write(s.replace(old, new, 1))
        prop, _, only = prop.partition(":")
        t = time.time()
        r = subprocess.run(["./check", prop] + (["--only=" + only] if only else []), cwd="/verif", env=dict(os.environ, VF_REPO=w + "/r"), capture_output=True, text=True)
        l = [x for x in r.stdout.splitlines() if x][-2:]
        return "rc=%d %.0fs %s" % (r.returncode, time.time() - t, " // ".join(x[:160] for x in l))
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]
    prop, f = a[:2]
    for k in range(2, len(a), 2):
        print("%s %s  %r -> %r\n    %s" % (prop, f, a[k][:60], a[k + 1][:60], run(prop, f, a[k], a[k + 1])), flush=True)
