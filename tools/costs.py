"""Prints the cost table of DESIGN.md from the evidence files of the last runs (argument: seeds for the table of planted bugs)."""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if sys.argv[1:] == ["seeds"]:
    print("| bug | property | needs |\n|---|---|---|")
    for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
        m = json.load(open(f))
        print("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/")))
    sys.exit()
print("| check | s | instances | paths | instructions | assertions (symbolic + concrete) | conditions given to Z3 | Z3 s | functions |\n|---|---|---|---|---|---|---|---|---|")
for f in sorted(glob.glob(V + "/evidence/[A-Z]*.json")):
    e = json.load(open(f))
    c = e["coverage"]
    print("| %s | %.0f | %d | %d | %.0f M | %d + %d | %d | %.1f | %d |" % (e["property"], e["wall_s"], len(c["instances"]), c["states"], c["transitions"] / 1e6,
          c["property_assertions_symbolic"], c["property_assertions_concrete"], c["solver_queries"] + c.get("confirmed_by_solver", {}).get("queries", 0),
          c["solver_seconds"] + c.get("confirmed_by_solver", {}).get("seconds", 0), len(c["functions_encoded"])))
