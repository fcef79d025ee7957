#!/bin/bash
# tools/bug.sh ID [check.py options]: apply seeded/ID, build, test, demo, its check; undo
ID=$1; shift
D=/verif/seeded/$ID
trap 'git -C /repo checkout -- . ' EXIT
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; trap - EXIT; exit 2; }
(cd /repo && bash $D/demo.sh >/tmp/bug_demo0.txt 2>&1); echo "demo on clean: $?"
git -C /repo apply $D/patch.diff || exit 2
bash /opt/vp/build.sh > /tmp/bug_build.txt 2>&1; echo "build: $?"
bash /opt/vp/test.sh /tmp/bug_test.json > /tmp/bug_test.txt 2>&1
/opt/venv/bin/python -c "
import json; s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); r=json.load(open('/tmp/bug_test.json'))
p=set(r.get('passed',[])); print('stable tests missing:', sorted(s-p))"
(cd /repo && bash $D/demo.sh >/tmp/bug_demo1.txt 2>&1); echo "demo with bug: $?"; tail -2 /tmp/bug_demo1.txt | cut -c1-200
P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif
VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.py $P "$@" 2>&1 | grep -v '^KNOWN' | cut -c1-260 | tail -4
