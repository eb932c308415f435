"""python -m vf.irx_run FILE.ll OUT.json SECONDS OPTIONS"""
import json, re, sys, time
sys.setrecursionlimit(100000)
from .irx.llparse import Module
from .irx import exec as X


def main(ll, out, secs, opts):
    o = json.loads(opts)
    t0 = time.time()
    text = open(ll).read()
    mod = Module(text)
    ex = X.Engine(mod, deadline=t0 + float(secs), qtimeout=o.get("qtimeout", 30), maxpaths=o.get("maxpaths"))
    ex.stop_first = o.get("stop_first", True)
    ex.fpabs = o.get("fpabs", False)
    ex.cellmax = o.get("cellmax", 4096)
    ex.muxw = 9 if ex.cellmax > 4096 else 7
    err = None
    try:
        ex.run("@vf_harness")
    except X.Inconclusive as e:
        st = getattr(ex, "cur", None)
        where = " > ".join(f.fn.name + f.blk for f in st.frames) if st else ""
        ins = ""
        if st and st.frames:
            fr = st.frames[-1]
            ins = str(fr.fn.blocks[fr.blk][fr.i])[:200]
        err = "inconclusive: %s [%s] %s; paths=%d forks=%d left=%s" % (e, where, ins, ex.stats["paths"], ex.stats["forks"], ex.stats.get("left"))
    json.dump(dict(stats=ex.stats, violations=ex.violations, error=err, reached=sorted(ex.reached),
                   functions=[f[1:] for f in ex.fnsused], wall=time.time() - t0), open(out, "w"))


if __name__ == "__main__":
    main(*sys.argv[1:5])
