#!/bin/bash
# try.sh ID PROP... : applies a planted bug to /repo, runs the quick checks, undoes it
id=$1; shift
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
git -C /repo apply /verif/seeded/$id/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
cd /verif
for p in "$@"; do python3 run.py $p quick > /tmp/plant/try.log 2>&1; echo "$id $p rc=$?: $(grep -a -m1 -A2 -E 'VIOLATION|INCONCL|no verdict' /tmp/plant/try.log | cut -c1-300)"; done
