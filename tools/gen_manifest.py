#!/usr/bin/env python3
"""Writes MANIFEST.json from spec.py and properties.jsonl."""
import json, sys
sys.path.insert(0, "/verif")
import spec
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in spec.CHECKS:
        c = spec.CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="path-exhaustive symbolic execution of the compiled LLVM IR of the real code, Z3 deciding every branch and assertion",
            level="model_checking",
            level_note="Holds for every value of the symbolic bytes on every path within the bounds: " + c["bounds"] +
              ". Outside: " + c["outside"] + ". Trusted: our IR executor (sampled paths are replayed natively and must agree), Z3, rustc."))
    else:
        na.append(dict(property=i, reason=spec.NA.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard=spec.HOOK["guard"], enable=spec.HOOK["enable"], source_commits=spec.HOOK["commits"]),
         checks=checks, not_applicable=na)
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
