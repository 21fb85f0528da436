#!/bin/bash
# Development helper: seedtest.sh ID... - confirm planted bugs and run their check against them.
cd /repo
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo base build failed; exit 1; }
  bash $D/demo.sh >/tmp/demo0.log 2>&1; r0=$?
  git apply $D/patch.diff || { echo "$id does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/b.log 2>&1; rb=$?
  bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
  n=$(python3 -c "
import json;o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('passed') or b.get('tests') or b.get('stable');print([x for x in base if x not in o['passed']][:4])")
  bash $D/demo.sh >/tmp/demo1.log 2>&1; r1=$?
  t0=$(date +%s); (cd /verif; python3 tools/check.py $P quick) >/tmp/chk.log 2>&1; rc=$?; t1=$(date +%s)
  git checkout -q -- .
  echo "$id ($P): demo clean=$r0 patched=$r1 build=$rb tests-missing=$n check=$rc ($((t1-t0))s) $(tail -1 /tmp/chk.log | cut -c1-110)"
  [ $rc = 1 ] && [ $r0 = 0 ] && [ $r1 != 0 ] || { tail -n 4 /tmp/demo0.log /tmp/demo1.log; }
done
bash /opt/vp/build.sh >/tmp/b.log 2>&1
