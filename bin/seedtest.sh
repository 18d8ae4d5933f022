#!/bin/bash
# bin/seedtest.sh ID [check args...]: confirms seeded/ID in a scratch copy of /repo (mounted over /repo in a private mount
# namespace): builds, passes the tests, its demo passes without and fails with the patch; then runs the property's quick check.
# NOTEST=1 skips the test suite, NOCHECK=1 the check.
id=$1; shift
src=/verif/seeded/$id
[ -f "$src/patch.diff" ] || { echo "no $src"; exit 2; }
w=/tmp/seed.$id
rm -rf "/tmp/seed.$id"; mkdir -p "$w"
cp -a /repo "$w/repo"; mkdir "$w/demo" "$w/verif"
cp "$src/patch.diff" "$w/p.diff"; cp "$src"/* "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
cp -a /verif/bin /verif/harness /verif/properties.jsonl /verif/known_findings.json "$w/verif/"
[ -d /verif/build ] && cp -a /verif/build "$w/verif/build"
mkdir -p "$w/verif/evidence"
prop=$(python3 -c "import json;print(json.load(open('$src/meta.json'))['property'])")
export w src prop id NOTEST NOCHECK; export ARGS="$*"
unshare -Urm bash -c '
mount --bind $w/repo /repo; mount --bind $w/verif /verif
cd /repo
if [ -z "$NODEMO0" ]; then timeout 300 bash $w/demo/demo.sh >$w/demo0.log 2>&1; echo "$id demo unchanged rc=$? (want 0)"; fi
git apply $w/p.diff
bash /opt/vp/build.sh >$w/build.log 2>&1 || { echo "$id BUILD FAILED"; tail -30 $w/build.log | cut -c1-300; exit 1; }
timeout 300 bash $w/demo/demo.sh >$w/demo1.log 2>&1; echo "$id demo patched rc=$? (want !=0): $(tail -1 $w/demo1.log | cut -c1-200)"
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $w/t.json >$w/test.log 2>&1; tail -1 $w/test.log; python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); t=json.load(open("$w/t.json"))
base=b["stable"]
bad=[x for x in base if x not in set(t["passed"])]
print("$id stable tests failing:",len(bad),bad[:4])
P
fi
if [ -z "$NOCHECK" ]; then cd /verif; timeout 900 python3 bin/check.py $prop --tier quick $ARGS >$w/check.log 2>&1; echo "$id check $prop rc=$? $(grep -m1 VIOLATION $w/check.log)"; grep -h -o "\"key\": .*" evidence/replay/*.json 2>/dev/null | head -3; grep -hE "HARNESS|error:" $w/check.log | head -5; fi
' 
cp "$w"/*.log "/tmp/seedlogs/" 2>/dev/null
rm -rf "/tmp/seed.$id"
