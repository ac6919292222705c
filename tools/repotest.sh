#!/bin/bash
# build /repo and compare the test results with the stable baseline
T=$(mktemp -d)
bash /opt/vp/test.sh "$T/t.json" > "$T/log" 2>&1
python3 - "$T/t.json" <<'PY'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t = json.load(open(sys.argv[1]))
m = sorted(b - set(t['passed']))
print("stable", len(b), "missing", m, "extra passes", len(set(t['passed']) - b), "failed", len(t['failed']))
sys.exit(1 if m else 0)
PY
R=$?
[ $R = 0 ] || tail -30 "$T/log"
rm -rf "$T"
exit $R
