#!/bin/bash
# For every planted bug (or those named): which checks report it? Runs on a scratch copy through VERIF_REPO.
# usage: tools/trybugs.sh [-a] [id ...]     -a: all checks, default: only the check of the bug's property
V=/verif; ALL=; [ "$1" = -a ] && { ALL=1; shift; }
S=$(mktemp -d /tmp/trybugs.XXXX); cp -a /repo $S/repo
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls $V/seeded))
for id in "${ids[@]}"; do
  (cd $S/repo && git checkout -q -- . && git apply $V/seeded/$id/patch.diff) || { echo "$id: patch"; continue; }
  P=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  L=$P; [ -n "$ALL" ] && L=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")
  for c in $L; do
    t0=$SECONDS
    o=$(cd $V && VERIF_REPO=$S/repo timeout 900 ./check $c 2>&1); rc=$?
    echo "$id [$P] $c rc=$rc $((SECONDS-t0))s $(echo "$o" | grep -m1 -E 'VIOLATION|Traceback|Error' | cut -c1-220)"
  done
done
rm -rf $S
