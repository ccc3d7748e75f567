#!/bin/bash
# seeded.sh [ID...]: apply each seeded change to a scratch copy of /repo, run the check of its property there
cd "$(dirname "$0")/.."
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  R=$(mktemp -d /tmp/seedrepo.XXXX); cp -a /repo/. $R/
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C $R apply $PWD/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  for c in $p $EXTRA; do
    s=$(date +%s); VERIF_REPO=$R timeout 900 ./check.sh $c > /tmp/seeded.out 2>&1; rc=$?
    echo "$id $c rc=$rc $(($(date +%s)-s))s $([ $rc = 1 ] && grep -q "VIOLATION property=$c" /tmp/seeded.out && echo CAUGHT || echo MISSED)"
  done
  rm -r "$R"
done
