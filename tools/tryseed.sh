#!/bin/bash
# tryseed.sh ID [nocheck]: apply the planted change to /repo, build, test, demo, check, undo (development helper)
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
if [ -z "$2" ]; then bash $S/demo.sh >/tmp/demo0.txt 2>&1; echo "demo clean: $?"; fi
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/b.txt 2>&1 || echo BUILD-FAILED
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/o.json'))['passed']);print('tests lost:',b-o)"
mkdir -p /tmp/demodir; rm -rf /tmp/demodir/s; cp -r $S /tmp/demodir/s; rm -f /tmp/demodir/s/patch.diff /tmp/demodir/s/meta.json
bash /tmp/demodir/s/demo.sh >/tmp/demo1.txt 2>&1; echo "demo patched: $?"; tail -3 /tmp/demo1.txt
cd /verif; [ "$2" = nocheck ] || { python3 check.py $P quick | grep -v UNDECIDED | cut -c1-250; echo "check exit ${PIPESTATUS[0]}"; }
