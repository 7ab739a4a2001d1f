#!/bin/bash
# tryseeds.sh [ID...]: runs the check of each seeded bug's property against a copy of /repo with the bug
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  [ -f checks/${p,,}.py ] || { echo "$d $p nocheck"; continue; }
  rm -rf /tmp/ts; mkdir /tmp/ts; cp -r /repo/src /repo/Makefile /tmp/ts/
  (cd /tmp/ts && git apply --unsafe-paths seeded/x 2>/dev/null; patch -s -p1 < /verif/seeded/$d/patch.diff) || { echo "$d patch failed"; continue; }
  o=$(CMV_REPO=/tmp/ts python3 run.py $p 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$o" | grep -c ^VIOLATION) $(echo "$o" | grep -A1 ^VIOLATION | grep -v VIOLATION | head -2 | cut -c1-110 | tr '\n' '|')"
  rm -rf /tmp/ts
done
