#!/bin/bash
# try_bug.sh ID: applies a planted bug to /repo, builds, runs stable tests, demo and the property's quick check, and undoes it.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "dirty /repo"; exit 1; }
T=$(mktemp -d); cp -a $D $T/x; rm -f $T/x/patch.diff $T/x/meta.json
undo() { git -C /repo checkout -q -- .; rm -f /repo/temp.bin; }
trap 'undo; rm -rf "$T"' EXIT
git apply $D/patch.diff || { echo "NOAPPLY"; exit 1; }
bash /opt/vp/build.sh > $T/b.log 2>&1 || { echo "NOBUILD"; tail -5 $T/b.log; exit 1; }
bash /opt/vp/test.sh $T/t.json > $T/t.log 2>&1
python3 - $T/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
st=set(b["stable_pass"] if "stable_pass" in b else next(v for k,v in b.items() if isinstance(v,list) and len(v)==88)); ps=set(t.get("passed",[]))
print("tests missing:", sorted(st-ps)[:5])
P
rm -f /repo/temp.bin
(timeout 300 bash $T/x/demo.sh) > $T/d.log 2>&1; echo "demo with patch: $? ($(tail -1 $T/d.log))"
if [ -z "$NOCHECK" ]; then cd /verif; for c in ${2:-$P}; do python3 check.py $c quick > $T/c.log 2>&1; echo "check $c: rc $?"; grep -A3 -m1 "candidate" $T/c.log | cut -c1-300; grep VIOLATION $T/c.log; tail -1 $T/c.log; done; fi
cd /repo; undo
bash /opt/vp/build.sh > $T/b.log 2>&1
(timeout 300 bash $T/x/demo.sh) > $T/d.log 2>&1; echo "demo without patch: $? ($(tail -1 $T/d.log))"
