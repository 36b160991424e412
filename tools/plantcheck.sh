#!/bin/bash
# plantcheck.sh ID...: build, tests, demo and check with and without each planted bug (development tool)
. /opt/vp/env.sh
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo; git diff --quiet || { echo "/repo dirty"; exit 1; }
  git apply "$D/patch.diff" || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo "$id: BUILD FAILED"
  T=$(bash /opt/vp/test.sh /tmp/out.json 2>/dev/null | tail -1)
  bash "$D/demo.sh" >/tmp/demo.$id.log 2>&1; d=$?
  cd /verif; timeout 890 node mc.mjs "$P" quick >/tmp/check.$id.log 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$id: tests [$T] demo-with-patch=$d check=$c $(grep -c VIOLATION /tmp/check.$id.log) :: $(grep -A1 -m1 VIOLATION /tmp/check.$id.log | tail -1 | cut -c1-160)"
done
cd /repo; bash /opt/vp/build.sh >/tmp/build.log 2>&1
for id in "$@"; do bash "/verif/seeded/$id/demo.sh" >/tmp/demo.$id.log 2>&1; echo "$id: demo-clean=$?"; done
