#!/bin/bash
# seedtry.sh ID [notest]: confirms a planted bug: demo passes on the tree, patch applies and builds, stable tests pass, demo fails
ID=$1; D=/verif/seeded/$ID; cd /repo || exit 2
[ -z "$(git status --short)" ] || { echo "repo not clean"; exit 2; }
X=$(mktemp -d); cp -a $D/. $X/; rm -f $X/*.diff $X/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
(timeout 300 bash $X/demo.sh > $X/o1 2>&1); r0=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1; rm -rf "$X"' EXIT
bash /opt/vp/build.sh > $X/b 2>&1 || { echo "$ID does not build"; tail -5 $X/b; exit 1; }
(timeout 300 bash $X/demo.sh > $X/o2 2>&1); r1=$?
t=skipped
if [ "$2" != notest ]; then bash /opt/vp/test.sh $X/t.json >/dev/null 2>&1
t=$(python3 -c "
import json,sys; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$X/t.json'))['passed']); m=sorted(b-p); print('ALLPASS' if not m else 'MISSING %d %s'%(len(m),m[:3]))"); fi
echo "$ID demo-clean=$r0 demo-patched=$r1 tests=$t"; tail -2 $X/o1 | cut -c1-200; tail -2 $X/o2 | cut -c1-200
