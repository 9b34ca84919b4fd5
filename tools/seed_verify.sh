#!/bin/bash
# tools/seed_verify.sh ID...: confirms planted bugs (applies, builds, tests pass, demo fails; demo passes without) and runs the check
for id in "$@"; do
  d=/verif/seeded/$id
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || echo "$id: BUILD FAILS"
  (cd /repo && timeout 300 bash $d/demo.sh > /tmp/demo_bad.log 2>&1); bad=$?
  if [ -z "$NOTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed_out.json > /tmp/seed_test.log 2>&1
    miss=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/seed_out.json'))['passed'])
print([t for t in b if t not in o])")
  fi
  (cd /verif && VERIF_SEED=1 ./check $prop quick > /tmp/seed_chk.log 2>&1)
  chk=$(grep -m1 -A1 "^VIOLATION property=$prop" /tmp/seed_chk.log | tr '\n' ' ' | cut -c1-200)
  git -C /repo apply -R $d/patch.diff
  bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1
  (cd /repo && timeout 300 bash $d/demo.sh > /tmp/demo_good.log 2>&1); good=$?
  echo "$id: demo bad=$bad good=$good missing tests=$miss caught=[${chk:-NO}]"
done
git -C /repo status --porcelain
