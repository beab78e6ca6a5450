#!/usr/bin/env python3
"""writes MANIFEST.json from analysis/meta.py and properties.jsonl"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(H, "analysis"))
import meta, core, rules.registry
NA = {
 "C29": "relates two whole runs over real-valued inputs; no static argument in reach bounds the composed numerical result (its structural ingredients are C03, C08-C10, C13-C21)",
 "C30": "running time and memory depend on run-time sizes; static analysis here has no cost model that could bound them",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in meta.META and i in core.RULES:
        x = meta.META[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": x["technique"], "level": "other", "level_note": x["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: the rules for it are still being written")})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "notes": "Static analysis only: a rustc driver (driver/) dumps MIR facts of /repo's current tree, analysis/ evaluates and judges them. See DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
