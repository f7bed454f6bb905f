#!/bin/bash
# try_bugs.sh [ids...]: run the check of each planted bug against a scratch copy of /repo with the bug applied.
cd "$(dirname "$0")/.." || exit 2
for id in ${@:-$(ls seeded)}; do
  w=/tmp/bug_$id
  rm -rf "$w"; cp -a /repo "$w"; git -C "$w" apply "$PWD/seeded/$id/patch.diff" || echo "APPLY FAILED"
  p=${PROP:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
  s=$SECONDS
  out=$(VP_REPO=$w VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./run_check.sh $p 2>&1); rc=$?
  echo "$id $p rc=$rc" >> tools/bug_results.txt
  echo "$id $p rc=$rc $((SECONDS-s))s $(echo "$out" | grep -m1 -A1 VIOLATION | cut -c1-220)"
  rm -rf "$w"
done
