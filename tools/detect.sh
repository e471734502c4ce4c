#!/bin/bash
# Runs each planted bug's check on a scratch copy of /repo with the bug. usage: detect.sh [-a] ID...
# (-a: all checks, not only that of the property). Not used by any check.
all=; [ "$1" = -a ] && { all=1; shift; }
cd "$(dirname "$0")/.."
v=$(mktemp -d /tmp/detect-XXXXXX)
cp -a run.sh vmc known_findings.txt MANIFEST.json tools "$v"/; mkdir "$v/evidence"
for id in "$@"; do
  cp -a /repo "$v/repo"
  git -C "$v/repo" apply "$PWD/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; rm -r "$v/repo"; continue; }
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "seeded/$id/meta.json")
  list=$prop; [ -n "$all" ] && list=$(cd vmc/h; echo C*)
  for c in $list; do
    s=$(date +%s)
    o=$("$v/run.sh" "$c" -repo "$v/repo" 2>&1); rc=$?
    res=MISSED; [ $rc = 1 ] && grep -q "VIOLATION property=$c" <<<"$o" && res=caught; [ $rc -gt 1 ] && res="ERROR $rc"
    [ -n "$all" ] && [ "$res" = MISSED ] || echo "$id $c $res $(( $(date +%s)-s ))s $(grep -m1 -A3 VIOLATION <<<"$o" | tr '\n' ' ' | cut -c1-200)"
    [ $rc -gt 1 ] && tail -5 <<<"$o"
  done
  rm -r "$v/repo"
done
rm -r "$v"
