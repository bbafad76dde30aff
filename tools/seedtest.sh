#!/bin/bash
# seedtest.sh [id...]: apply every planted change to /repo, run the check of its property, undo.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  t=$(date +%s); out=$(python3 check.py $p 2>/tmp/seedtest.err); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(($(date +%s)-t))s $(echo "$out" | grep -v KNOWN | head -1 | cut -c1-150)"
  [ $rc = 2 ] && tail -3 /tmp/seedtest.err
done
