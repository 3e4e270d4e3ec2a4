#!/bin/bash
# plant.sh ID : turns the edits made in /tmp/plant/repo into seeded/ID/patch.diff and checks them there:
# builds, runs the stable tests, demo with and without the patch.
set -u
id=$1; S=/verif/seeded/$id; W=/tmp/plant/repo
cd $W || exit 2
if [ -z "${KEEP:-}" ]; then git diff > $S/patch.diff; fi
[ -s $S/patch.diff ] || { echo "empty patch"; exit 2; }
git checkout -q -- . ; git pull -q /repo HEAD 2>/dev/null; git reset -q --hard FETCH_HEAD 2>/dev/null
D=$(mktemp -d); cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
( cd $W && REPO=$W bash $D/demo.sh > /tmp/plant/demo0.log 2>&1 ); r0=$?
git apply $S/patch.diff || exit 2
# test.sh and env.sh name /repo: run the same command here
( . /opt/vp/env.sh; cd $W; CARGO_TARGET_DIR=$W/target cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8 > /tmp/plant/test.log 2>&1 )
python3 /opt/vp/results.py /tmp/plant/res.json cargo:/tmp/plant/test.log >/dev/null 2>&1
missing=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/plant/res.json'))
print(sorted(set(b['stable'])-set(o['passed']))[:5])
P
)
( cd $W && REPO=$W bash $D/demo.sh > /tmp/plant/demo1.log 2>&1 ); r1=$?
git checkout -q -- .
rm -rf "$D"
echo "$id: demo unchanged=$r0 patched=$r1 missing tests=$missing"
tail -3 /tmp/plant/demo1.log
