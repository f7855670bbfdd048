#!/bin/bash
# Runs the check of each given planted bug (default: all) against a scratch copy of /repo.
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for b in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  d=$(mktemp -d /tmp/w/mutXXXX)
  cp -a /repo/. $d/ && git -C $d apply /verif/seeded/$b/patch.diff || echo "$b: patch fails"
  s=$(date +%s)
  GOVC_REPO=$d timeout 900 bash check.sh $p quick > /tmp/w/bug.$b.log 2>&1; rc=$?
  echo "$b $p exit $rc $(( $(date +%s) - s ))s $(grep VIOLATION /tmp/w/bug.$b.log | head -1)"
  find $d -delete
done
