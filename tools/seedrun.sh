#!/bin/bash
# seedrun.sh ID...: try planted bugs in /repo (applied, built, tested, demonstrated, checked, undone).
cd /verif
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  t=NO; bash tools/repotest.sh > /tmp/seedrun.log 2>&1 && t=yes
  ( cd /repo && bash "$d/demo.sh" > /tmp/seedrun.demo 2>&1 ); dr=$?
  c=$(timeout 900 python3 tools/check.py "$prop" 2>&1); cr=$?
  git -C /repo checkout -q -- .
  echo "$id ($prop): tests pass=$t demo=$dr check exit=$cr $(echo "$c" | grep -m1 -E '^VIOLATION|ERROR|UNCONF|INCOMP' | cut -c1-160)"
  echo "$c" | grep -m2 '^  ' | cut -c1-220
done
bash /opt/vp/build.sh > /tmp/seedrun.log 2>&1
for id in "$@"; do ( cd /repo && bash /verif/seeded/$id/demo.sh > /tmp/seedrun.demo 2>&1 ) && echo "$id: demo ok on unchanged tree" || { echo "$id: DEMO FAILS UNCHANGED"; tail -5 /tmp/seedrun.demo; }; done
