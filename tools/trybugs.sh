#!/bin/bash
# trybugs.sh ID...: runs each planted bug's own check against a patched copy
here=$(cd "$(dirname "$0")/.." && pwd)
for b in "$@"; do
  d=$here/seeded/$b
  prop=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
  tmp=$(mktemp -d /tmp/bug.XXXXXX)
  cp -a /repo $tmp/repo && git -C $tmp/repo apply $d/patch.diff || { echo "$b: patch fails"; rm -rf "$tmp"; continue; }
  t0=$(date +%s)
  BELLA_REPO=$tmp/repo $here/check.sh $prop quick > $tmp/out 2>&1; rc=$?
  echo "$b $prop rc=$rc $(($(date +%s)-t0))s $(grep -m1 'clause' $tmp/out | cut -c1-150) $(grep -m1 -i 'error' $tmp/out | cut -c1-200)"
  rm -rf "$tmp"
done
