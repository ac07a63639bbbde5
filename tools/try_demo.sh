#!/bin/bash
# Developer tool: try_demo.sh id...  the demonstration without and with the patch, no build, no tests
cd /repo || exit 1
for id in "$@"; do
  d=/verif/seeded/$id
  bash $d/demo.sh > /tmp/try.demo0 2>&1; c0=$?
  git apply $d/patch.diff || continue
  bash $d/demo.sh > /tmp/try.demo1 2>&1; c1=$?
  git checkout -q -- .
  echo "$id clean=$c0 ($(tail -1 /tmp/try.demo0)) bug=$c1 ($(tail -1 /tmp/try.demo1 | cut -c1-200))"
done
