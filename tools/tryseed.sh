#!/bin/bash
# tryseed.sh <seed id>...: demo on the unchanged tree, then with the patch applied: build, tests, demo, check.
# Run only with a clean /repo. Leaves /repo as it was.
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh > /tmp/build.log 2>&1
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash "$d/demo.sh" > /tmp/demo0.log 2>&1; r0=$?
  if ! git apply "$d/patch.diff"; then echo "$id: patch does not apply"; continue; fi
  t=$(/verif/tools/repotest.sh | grep -E "stable pass|error|FAIL|::" | head -3 | tr '\n' ' ')
  bash "$d/demo.sh" > /tmp/demo1.log 2>&1; r1=$?
  (cd /verif && timeout 900 ./run.sh "$p" > /tmp/check.log 2>&1); rc=$?
  git checkout -q -- . ; git clean -fdq -e target -- crates bindings packages 2>/dev/null
  echo "$id ($p): demo $r0/$r1, tests: $t, check exit $rc: $(grep -m1 VIOLATION /tmp/check.log | cut -c1-120)"
done
