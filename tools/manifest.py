#!/usr/bin/env python3
"""Writes MANIFEST.json and properties.jsonl from props.py and registry.py (one source for both)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import registry, props
LEFT_OUT = {}          # property id -> reason (listed under not_applicable)
ps = [d for d in props.P if d["id"] in registry.CHECKS or d["id"] in LEFT_OUT]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in ps:
        f.write(json.dumps(d) + "\n")
checks = []
for d in ps:
    i = d["id"]
    if i not in registry.CHECKS:
        continue
    c = registry.CHECKS[i]
    checks.append(dict(
        property=i, quick_cmd="python3 tools/check.py %s" % i, thorough_cmd="python3 tools/check.py %s --tier thorough" % i,
        evidence_file="evidence/%s.json" % i,
        technique=c.get("technique") or "symbolic execution of the library's LLVM bitcode with SMT (z3), counterexamples replayed natively",
        level="model_checking",
        level_note="All paths within the stated bounds are explored symbolically from the current source; bounds and assumptions: "
                   + "; ".join(c["assumptions"]) + ". Trusted: the executor and its C/C++ runtime models (sampled paths are compared with native runs each time), clang, z3."))
commits = []
m = dict(version=1, setup_cmd="python3 tools/check.py --prebuild", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(LEFT_OUT.items())],
         notes="One engine (engine/), runtime and environment models (rt/), one harness per property group (harness/); see DESIGN.md. No hooks in /repo are needed.")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(ps), "properties,", len(checks), "checks; missing:", [d["id"] for d in props.P if d not in ps])
