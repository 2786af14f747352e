#!/bin/bash
# seedtest.sh ID...: planted bugs: patch applies, builds, tests pass, demo, check catches.  TESTS=0 skips the suite.
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo not clean"; exit 1; }
  native=0; grep -q '^+++ b/.*\.[ch]pp' $d/patch.diff && native=1
  cd /repo; bash $d/demo.sh >/tmp/demo0.log 2>&1; d0=$?
  git -C /repo apply $d/patch.diff || { echo "$id apply failed"; continue; }
  t=skipped
  if [ "${TESTS:-1}" = 1 ]; then
    bash /opt/vp/test.sh /tmp/ST.json >/tmp/st.log 2>&1
    t=$(/opt/venv/bin/python -c "
import json
o=json.load(open('/tmp/ST.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('missing', sorted(set(b['stable'])-set(o['passed']))[:5])")
  elif [ $native = 1 ]; then bash /opt/vp/build.sh >/tmp/st.log 2>&1; fi
  bash $d/demo.sh >/tmp/demo1.log 2>&1; d1=$?
  for p in $prop ${ALSO:-}; do
    VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python -W ignore /verif/run.py $p --tier quick >/tmp/sc_$id.log 2>&1; c=$?
    echo "$id prop=$p demo(clean)=$d0 demo(bug)=$d1 tests=$t check=$c $(grep -m2 VIOLATION /tmp/sc_$id.log | tr '\n' ' ')"
  done
  git -C /repo checkout -- .
  if [ $native = 1 ]; then bash /opt/vp/build.sh >/tmp/st.log 2>&1; fi
done
