#!/bin/bash
# development helper: run checks one after the other with a short engine limit
cd "$(dirname "$0")/.."
for p in "$@"; do VERIF_T=${T:-100} timeout 600 python3 tools/check.py $p; echo "== $p exit $?"; python3 tools/ev.py $p 2>/dev/null | head -${N:-3}; done
