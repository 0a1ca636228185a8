#!/bin/bash
# tryseeds.sh [ID..]: apply each planted bug to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.."
L=("$@"); [ ${#L[@]} = 0 ] && L=($(ls seeded))
for s in "${L[@]}"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  [ -f harness/$p.cc ] || { echo "$s $p NO-CHECK"; continue; }
  git -C /repo apply $PWD/seeded/$s/patch.diff || { echo "$s NOAPPLY"; continue; }
  t=$SECONDS
  python3 tools/check.py run $p > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/try.out; then echo "$s $p CAUGHT $((SECONDS-t))s: $(grep -m1 ^VIOLATION /tmp/try.out)"; else echo "$s $p MISSED rc=$rc $((SECONDS-t))s"; tail -3 /tmp/try.out; fi
done
