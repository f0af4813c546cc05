#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of checks."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["x"]
ns = {"__name__": "gen", "__file__": os.path.join(ROOT, "run.py")}
exec(open(os.path.join(ROOT, "run.py")).read(), ns)
CHECKS = ns["CHECKS"]
DEFAULT = ("value monitors against a long-double reference model on generated workloads, real code under ASan+UBSan "
           "with library assertions and in an optimised build")
NOTE = ("Held on the executions produced: the number of distinct inputs, operations and monitor evaluations is in the "
        "evidence file. Trusts the reference model (harness/model.hpp), the tolerances (harness/lib.hpp) and the "
        "sanitizer runtimes; inputs are finite, of moderate magnitude and within the binomial degree limit.")
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p in CHECKS:
        c = CHECKS[p]
        checks.append(dict(property=p, quick_cmd="python3 run.py %s" % p, thorough_cmd="python3 run.py %s --tier thorough" % p,
                           evidence_file="evidence/%s.json" % p, technique=c.get("technique", DEFAULT),
                           level="exploration", level_note=c.get("note", NOTE)))
    else:
        na.append(dict(property=p, reason="check not built yet (work in progress)"))
m = dict(version=1, setup_cmd="python3 run.py --selftest",
         checks=checks, not_applicable=na,
         notes="Everything is compiled per run from /repo's working tree into a scratch directory; no hooks in /repo are needed "
               "(header-only library, all state is observable through the public interface).")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
