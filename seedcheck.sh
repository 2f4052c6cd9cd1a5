#!/bin/bash
# seedcheck.sh ID [CHECK...]: apply seeded/ID/patch.diff to /repo, build, run the tests, the demo and the named checks
# (default: the property of meta.json), undo.  Development aid, not registered anywhere.
cd /verif; id=$1; shift
d=/verif/seeded/$id
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is dirty"; exit 1; }
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/x/demo0.out 2>&1); echo "demo unchanged rc=$? (want 0)"
git -C /repo apply $d/patch.diff || exit 1
if [ -z "$NOTEST" ]; then
 bash /opt/vp/build.sh >/tmp/x/build.out 2>&1; echo "build rc=$?"
 bash /tmp/x/cmp.sh
fi
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/x/demo1.out 2>&1); echo "demo patched rc=$? (want nonzero)"; tail -2 /tmp/x/demo1.out
for p in ${@:-$prop}; do ./run.sh $p > /tmp/x/sc.out 2>&1; echo "$p rc=$?"; grep -m3 violated /tmp/x/sc.out | cut -c1-300; tail -1 /tmp/x/sc.out; done
git -C /repo checkout -- .
