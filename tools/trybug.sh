#!/bin/bash
# tools/trybug.sh ID [PROP...]: applies seeded/ID to /repo, builds, runs the baseline, the demo and the checks, and undoes it
ID=$1; shift
D=/verif/seeded/$ID
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 1; }
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh > /tmp/tb.log 2>&1; bash $D/demo.sh > /tmp/tb.demo0 2>&1; echo "demo clean: $?"
fi
git apply $D/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh > /tmp/tb.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/tb.log; }
bash $D/demo.sh > /tmp/tb.demo1 2>&1; echo "demo patched: $?"
fi
if [ -z "$SKIPTEST" ]; then
bash /opt/vp/test.sh /tmp/tb.json > /tmp/tb.log 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/tb.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(d['passed']); print("baseline missing:", [x for x in b if x not in p][:5])
P
fi
cd /verif
for P in "$@"; do
  python3 checks/${P,,}.py > /tmp/tb.$P 2>&1; echo "$P rc=$?"; grep VIOLATION /tmp/tb.$P | cut -c1-200; tail -1 /tmp/tb.$P
done
