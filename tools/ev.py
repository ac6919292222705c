#!/usr/bin/env python3
import json, os, sys
for p in sys.argv[1:]:
    e = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence", p + ".json")))
    c = e["coverage"]
    for i in sorted(c["instances"], key=lambda i: -i["s"])[:12]:
        print(p, i["s"], "s", i["harness"], i["params"], "paths", i["paths"], "checks", i["checks"], "" if i["complete"] else "INCOMPLETE")
    print({k: c[k] for k in c if k.startswith("solver") or k in ("source_lines_encoded", "branch_decisions", "decided_by_exact_byte_domain")})
