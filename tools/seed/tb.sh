#!/bin/bash
# tb.sh ID [nocheck] : try a planted bug
id=$1; d=/verif/seeded/$id
cd /repo; [ -z "$(git status --short)" ] || { echo dirty; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || echo BASE-BUILD-FAIL
bash $d/demo.sh >/tmp/tb.demo0 2>&1 && echo "demo base ok" || { echo "DEMO FAILS ON BASE"; tail -5 /tmp/tb.demo0; }
git apply $d/patch.diff || { echo NOAPPLY; exit 1; }
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo BUILD-FAIL; grep -E "^error" -A8 /tmp/tb.log; exit 1; }
bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/tb.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(t['passed']); print("tests missing:",sorted(m)[:5])
P
bash $d/demo.sh >/tmp/tb.demo1 2>&1 && echo "DEMO PASSES WITH BUG" || { echo "demo fails with bug: $(tail -1 /tmp/tb.demo1)"; }
if [ "$2" != nocheck ]; then
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif; python3 check.py ${2:-$p} quick 2>&1 | tail -${TAIL:-4}
fi
