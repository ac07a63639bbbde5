#!/bin/bash
# Developer tool: try_bugs.sh id...  For each planted bug: build + stable tests with
# the patch, demo without and with it, and the property's check with it.
cd /repo || exit 1
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "/repo is not clean"; exit 1; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$NODEMO" ]; then bash $d/demo.sh > /tmp/try.demo0 2>&1; c0=$?; else c0=-; fi
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  if [ -z "$NODEMO" ]; then
    bash /opt/vp/build.sh > /tmp/try.build 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/try.json > /dev/null 2>&1
    t=$(python3 -c "
import json
st=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open('/tmp/try.json'))['passed'])
print(len([s for s in st if s not in p]))")
    bash $d/demo.sh > /tmp/try.demo1 2>&1; c1=$?
  fi
  (cd /verif && VERIF_SEED=${SEED:-1} python3 run.py $prop > /tmp/try.check.$id 2>&1); k=$?
  git checkout -q -- .
  echo "$id ($prop): build=$b tests_lost=$t demo_clean=$c0 demo_bug=$c1 check=$k $(grep -m1 VIOLATION /tmp/try.check.$id)"
done
