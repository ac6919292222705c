#!/bin/bash
# development helper: replay a counterexample and show byte logs as text
cd "$(dirname "$0")/.."
python3 tools/check.py --replay evidence/replay/$1.json | python3 -c "
import sys
for l in sys.stdin:
    p=l.rstrip().split(' ')
    if len(p)==3 and p[0]=='LOG':
        try:
            b=bytes.fromhex(p[2])
            if len(p[2])>3: print(p[1], b); continue
        except ValueError: pass
    print(l.rstrip())"
