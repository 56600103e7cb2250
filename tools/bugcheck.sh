#!/bin/bash
# Development helper: runs the quick check of its property against each planted bug (in a scratch copy of /repo).
cd /verif; B=/tmp/bcrepo.$$; cp -a /repo $B; export REPO=$B; trap "rm -rf $B" EXIT
for d in ${@:-seeded/*}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C $B apply /verif/seeded/$id/patch.diff || { echo "$id APPLY FAILS"; continue; }
  s=$(date +%s)
  timeout 900 bash check.sh $p quick > /tmp/bc.$id 2>&1; rc=$?
  git -C $B checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 '^VIOLATION' /tmp/bc.$id | cut -c1-150)"
done
