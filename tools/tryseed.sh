#!/bin/bash
# tryseed.sh ID [PROPERTY...]: tries a planted bug in private copies of /repo and /verif (bind-mounted over the real ones in a mount
# namespace of its own): demo passes without it; builds, passes the tests, demo fails with it; then the checks of its property.
# Development tool only: no check uses it.
ID=$1; shift
S=/verif/seeded/$ID
[ -f $S/patch.diff ] || { echo "no such seed"; exit 2; }
PROPS="$*"; [ -n "$PROPS" ] || PROPS=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
W=$(mktemp -d /tmp/seed-$ID-XXXX)
trap 'rm -rf "$W"' EXIT
cp -a /repo $W/repo; mkdir $W/verif
(cd /verif && cp -a tools harness known_findings.json catalog* models $W/verif/ 2>/dev/null; [ -d build ] && cp -al build $W/verif/build); rm -rf $W/verif/build/.lock
cp -a $S $W/seed; rm -f $W/seed/patch.diff $W/seed/meta.json; cp $S/patch.diff $W/p.diff
unshare -m bash -c '
W=$1; PROPS="$2"
mount --make-rprivate /; mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
bash /opt/vp/build.sh > $W/b0.log 2>&1 || { echo "base build failed"; tail -5 $W/b0.log; exit 2; }
[ -n "$SKIPDEMO" ] || { timeout 300 bash $W/seed/demo.sh > $W/d0.log 2>&1; echo "demo base rc=$? (want 0)"; tail -3 $W/d0.log; }
git apply $W/p.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo "patched build failed"; grep -m5 error $W/b1.log; exit 2; }
if [ -z "$SKIPDEMO" ]; then
timeout 300 bash $W/seed/demo.sh > $W/d1.log 2>&1; echo "demo patched rc=$? (want nonzero)"; tail -3 $W/d1.log
bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1
python3 - $W/t.json <<P
import json,sys
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open(sys.argv[1])); b=b.get("passed") or b.get("stable") or b
b=set(b if isinstance(b,list) else b["passed"]); print("tests missing:", sorted(b-set(o["passed"]))[:10])
P
fi
cd /verif
for p in $PROPS; do s=$(date +%s); timeout 900 python3 tools/run.py $p quick > $W/c.log 2>&1; rc=$?; echo "check $p rc=$rc $(( $(date +%s) - s ))s $(grep -c ^VIOLATION $W/c.log) violations"; head -${LINES_OUT:-3} $W/c.log; done
' x "$W" "$PROPS"
