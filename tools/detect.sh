#!/bin/bash
# run the quick check of each planted change's own property (or those in $PROPS) against a scratch copy of /repo
# usage: detect.sh [id...]; without ids the result is kept in tools/detection.txt
cd "$(dirname "$0")/.." || exit 2
d=$(mktemp -d /tmp/detect.XXXXXX)
trap 'rm -rf "$d"' EXIT
git clone -q /repo "$d/repo" || exit 2
out=/dev/null
[ $# -eq 0 ] && { set -- $(ls seeded); out=$d/all; all=1; }
for id in "$@"; do
  prop=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C "$d/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  for p in ${PROPS:-$prop}; do
    s=$(date +%s)
    r=$(VP_REPO=$d/repo bash run.sh $p ${TIER:-quick} -noevidence -stop 2>&1); rc=$?
    echo "$id $p rc=$rc $(($(date +%s)-s))s $(echo "$r" | grep -m1 -o 'VIOLATION property=[A-Z0-9]*')" | tee -a $out
  done
  git -C "$d/repo" checkout -q -- .
done
[ -n "$all" ] && cp "$out" tools/detection.txt
