#!/bin/bash
# dev helper: seedtool.sh <id> [nocheck]: validates the planted bug in /verif/seeded/<id>
# (applies it to /repo, builds, runs the stable tests, the demo and the property's check; undoes it)
D=/verif/seeded/$1
PID=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash $D/demo.sh >/tmp/seed_demo0.log 2>&1; echo "demo clean: $?"
git apply $D/patch.diff || exit 1
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1; echo "build: $?"
bash $D/demo.sh >/tmp/seed_demo1.log 2>&1; echo "demo patched: $? ($(tail -1 /tmp/seed_demo1.log | cut -c1-100))"
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/seed_t.json >/tmp/seed_test.log 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/seed_t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b
f=[x for x in (d['failed'] if isinstance(d['failed'],list) else [])]
print('tests passed',len(d['passed']) if isinstance(d['passed'],list) else d['passed'],'failed',f[:5] or d['failed'])
P
fi
cd /verif; python3 check.py $PID quick | tail -4; echo "check rc ${PIPESTATUS[0]}"
