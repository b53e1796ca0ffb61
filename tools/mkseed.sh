#!/bin/bash
# usage: mkseed.sh ID PROPERTY NEEDS BREAKS [kit files...]
# takes the edited scratch clone /tmp/seedw/repo and /tmp/seedw/demo.rs, confirms the planted bug and stores it
set -u
id=$1; prop=$2; needs=$3; breaks=$4; shift 4
W=/tmp/seedw
d=/verif/seeded/$id
mkdir -p "$d/demo"
git -C $W/repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp $W/demo.rs "$d/demo/main.rs"
for f in "$@"; do cp /verif/harness/src/$f "$d/demo/"; done
cp /verif/harness/Cargo.lock "$d/demo/Cargo.lock"
cp /verif/tools/seedkit/demo.sh "$d/demo.sh"
python3 - "$d/meta.json" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
( cd $W/repo && CARGO_TARGET_DIR=$W/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > $W/test.log 2>&1 )
python3 /opt/vp/results.py $W/out.json cargo:$W/test.log >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedw/out.json'))
def passed(x):
    for k in ('passed','stable','pass'):
        if k in x: return set(x[k])
    return set(x)
m=passed(b)-passed(o)
print("tests: lost", sorted(m)[:5], len(m))
P
( cd /repo && bash $d/demo.sh > $W/d0.log 2>&1 ); a=$?
( cd $W/repo && bash $d/demo.sh > $W/d1.log 2>&1 ); b=$?
echo "$id demo: unchanged $a, patched $b"; tail -3 $W/d0.log; tail -3 $W/d1.log
git -C $W/repo checkout -q -- .
