#!/bin/bash
# runseeds.sh [ID...]: applies each planted change to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.." || exit 2
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
[ $# -gt 0 ] || set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  t0=$SECONDS
  out=$(./check "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  v=$(echo "$out" | grep -c "^VIOLATION property=$p ")
  echo "$s $p rc=$rc violations=$v $((SECONDS-t0))s $(python3 - <<P
import glob,json
w=[json.load(open(f)) for f in glob.glob('evidence/replay/$p-*.json')]
print('; '.join('%s: %s'%(x['sub'],x['why'][:90]) for x in w[:2]))
P
)"
  rm -f evidence/replay/$p-*.json
done
