#!/bin/bash
# matrix.sh own|all [ID...]: applies each planted bug to /repo, runs its own (or every) check, undoes it.
HERE="$(cd "$(dirname "$0")/.." && pwd)"
MODE="$1"; shift
cd "$HERE/seeded" || exit 1
IDS="${*:-$(ls)}"
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
for id in $IDS; do
  own=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$id/meta.json")
  git -C /repo apply "$HERE/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
  list="$own"; [ "$MODE" = all ] && list=$(python3 -c 'import json;print(" ".join(c["property"] for c in json.load(open("'"$HERE"'/MANIFEST.json"))["checks"]))')
  res=""
  for p in $list; do
    out=$(bash "$HERE/check.sh" $p quick 2>&1); rc=$?
    if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then res="$res $p"; elif [ $rc != 0 ]; then res="$res $p(rc$rc)"; fi
  done
  git -C /repo checkout -q -- .
  echo "$id own=$own caught_by:${res:- NONE}"
done
