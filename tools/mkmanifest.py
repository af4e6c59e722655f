#!/usr/bin/env python3
"""writes MANIFEST.json from the list of claimed properties"""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Go code (SSA) with SMT solving (z3); counterexamples replayed natively"
NOTE = "Holds for all values within the stated bounds (see evidence: bounds). Trusts the symbolic executor's Go semantics (cross-checked natively by trace replay and SMT audits), z3, and the models of runtime intrinsics."
claimed = {"C%02d" % i: (TECH, NOTE) for i in list(range(1, 24)) + [25]}
na = {
    "C24": "A claim about running time and allocation counts relative to another package; symbolic reasoning over the code's values says nothing about timings.",
}
extra = {}
p = os.path.join(here, "tools", "manifest_extra.json")
if os.path.exists(p):
    extra = json.load(open(p))
for k, v in extra.get("claimed", {}).items():
    claimed[k] = (v.get("technique", TECH), v.get("note", NOTE))
na.update(extra.get("not_applicable", {}))
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for k in sorted(claimed):
    t, n = claimed[k]
    m["checks"].append({"property": k, "quick_cmd": "./check.sh %s quick" % k, "thorough_cmd": "./check.sh %s thorough" % k,
                        "technique": t, "level": "model_checking", "level_note": n})
for k in sorted(na):
    m["not_applicable"].append({"property": k, "reason": na[k]})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
