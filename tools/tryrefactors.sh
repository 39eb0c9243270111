#!/bin/bash
# Behaviour-preserving edits (tools/refactors/*.py): every check has to stay quiet. Scratch copy through VERIF_REPO.
# usage: tools/tryrefactors.sh [-c "C01 C02 .."] [-t] [name ...]     -t: also run the repository's tests on each
V=/verif; CH=; T=
while [ "${1#-}" != "$1" ]; do case $1 in -c) CH=$2; shift 2;; -t) T=1; shift;; esac; done
[ -z "$CH" ] && CH=$(python3 -c "import json;print(*[c['property'] for c in json.load(open('$V/MANIFEST.json'))['checks']])")
S=$(mktemp -d /tmp/tryref.XXXX); cp -a /repo $S/repo
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(cd $V/tools/refactors; ls *.py | sed 's/\.py$//'))
for id in "${ids[@]}"; do
  (cd $S/repo && git checkout -q -- . && python3 -c "
g={}; exec(open('$V/tools/refactors/$id.py').read(), g); g['edit']('$S/repo')") || { echo "$id: EDIT FAILED"; continue; }
  (cd $S/repo && RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --edition 2021 --crate-type rlib --crate-name aga8 --cfg 'feature="extern"' -A warnings src/lib.rs -o $S/l.rlib 2>$S/err) || { echo "$id: DOES NOT COMPILE"; head -20 $S/err; continue; }
  if [ -n "$T" ]; then (cd $S/repo && rm -rf target/debug/.fingerprint/aga8-*; RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu cargo test --workspace --features extern --offline >$S/t 2>&1); echo "$id tests rc=$? $(grep -c '\.\.\. ok' $S/t) ok"; fi
  for c in $CH; do
    t0=$SECONDS; o=$(cd $V && VERIF_REPO=$S/repo timeout 900 ./check $c 2>&1); rc=$?
    echo "$id $c rc=$rc $((SECONDS-t0))s $([ $rc = 0 ] || echo "$o" | grep -m3 -E 'not discharged|Traceback|failing' | cut -c1-300)"
  done
done
rm -rf $S
