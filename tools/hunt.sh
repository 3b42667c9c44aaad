#!/bin/bash
# hunt.sh [id...]: runs the property's check against each planted bug, from a scratch copy (never /repo)
V="$(cd "$(dirname "$0")/.." && pwd)"
cd "$V" || exit 1
W=/tmp/hunt; mkdir -p $W
[ -d $W/repo ] || cp -a /repo $W/repo
git -C $W/repo checkout -q -- . ; git -C $W/repo fetch -q /repo HEAD && git -C $W/repo reset -q --hard FETCH_HEAD
ids="$*"; [ -n "$ids" ] || ids=$(ls seeded)
for i in $ids; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
    git -C $W/repo checkout -q -- .
    git -C $W/repo apply "$V/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
    RTMON_REPO=$W/repo RTMON_TARGET=$W/target ./build.sh || { echo "$i build failed"; continue; }
    for q in ${PROPS:-$p}; do
        out=$(RTMON_BIN=$W/target/debug/reqtrace RTMON_SHIM=$W/target/rtshim.so RTMON_LAUNCH=$W/target/rtlaunch RTMON_OUT=$W/out python3 -B rtmon/main.py $q --tier ${TIER:-quick} --seed ${SEED:-1} 2>&1)
        rc=$?
        echo "$i $q rc=$rc $(echo "$out" | grep -ao '[0-9]* cases' | head -1) $(echo "$out" | grep -a -m1 -A1 '^observed' | tail -1 | cut -c1-160)"
    done
done
