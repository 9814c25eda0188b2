#!/bin/bash
# tools/tryseed.sh ID [notest]: confirm a planted change (build, stable tests, demo, its check), then undo it.
id=$1; s=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1 || { echo "clean build failed"; exit 2; }
bash $s/demo.sh >/tmp/ts_demo0.log 2>&1; echo "demo on clean tree: $? (want 0)"
git apply $s/patch.diff || exit 2
trap 'git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
if [ "$2" = notest ]; then bash /opt/vp/build.sh >/tmp/ts_build.log 2>&1 || echo "BUILD FAILS"; else
bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts_test.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/ts.json'))['passed'])
print("stable tests failing:", sorted(b-p))
P
fi
bash $s/demo.sh >/tmp/ts_demo1.log 2>&1; echo "demo on changed tree: $? (want != 0)"
P=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /verif && timeout 900 python3 check.py $P >/tmp/ts_check.log 2>&1; echo "check $P: exit $?"; grep -E "VIOLATION|HOLDS|UNDECIDED|NOT-PROVED" /tmp/ts_check.log
