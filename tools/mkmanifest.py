#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    src = "%s/harness/src/%s.rs" % (V, i.lower())
    if i in NA or not os.path.exists(src):
        na.append({"property": i, "reason": NA.get(i, "planned; check not built yet")})
        continue
    checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "python3 run.py " + i, "evidence_file": "evidence/%s.json" % i,
                   "technique": "bounded symbolic execution of the compiled IR of the real code, branches and assertions decided by an SMT solver (Z3), counterexamples replayed natively",
                   "level": "model_checking",
                   "level_note": "exhaustive over all values within the bounds stated per harness (evidence, DESIGN.md); document shapes and text lengths beyond the bounds are not covered"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"source_commits": []}, "checks": checks, "not_applicable": na}
m = {k: v for k, v in m.items() if k != "hooks"}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
