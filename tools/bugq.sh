#!/bin/bash
# tools/bugq.sh ID [check.py options]: like bug.sh, but in a scratch copy of /repo's HEAD (pure-Python tests only)
ID=$1; shift
D=/verif/seeded/$ID
S=$(mktemp -d /tmp/bugq-XXXXXX); trap 'rm -rf "$S"' EXIT
mkdir $S/repo; git -C /repo archive HEAD | tar x -C $S/repo
(cd $S/repo && bash $D/demo.sh >$S/o 2>&1); echo "$ID: demo on clean: $?"; tail -1 $S/o | cut -c1-200
(cd $S/repo && patch -p1 -s < $D/patch.diff) || exit 2
(cd $S/repo && PYTHONPATH=$S/repo /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider test/unittests 2>&1 | tail -1)
(cd $S/repo && bash $D/demo.sh >$S/o 2>&1); echo "demo with bug: $?"; tail -1 $S/o | cut -c1-200
P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /verif
for p in ${CHECK:-$P}; do VERIF_REPO=$S/repo VERIF_EXT_CACHE=/tmp/extcache VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.py $p "$@" 2>&1 | grep -v '^KNOWN' | cut -c1-260 | tail -3; done
