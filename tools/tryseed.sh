#!/bin/bash
# tryseed.sh [-n] <id>...: validate planted bugs (demo clean, apply, build, tests, demo patched, check); -n skips the repo tests
notest=; [ "$1" = -n ] && { notest=1; shift; }
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id; prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1
  (cd /repo; bash "$d/demo.sh" >/tmp/sd.log 2>&1); c=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/sb.log 2>&1 || { echo "$id: BUILD FAILS"; tail -20 /tmp/sb.log; git -C /repo checkout -q -- .; continue; }
  (cd /repo; bash "$d/demo.sh" >/tmp/sd2.log 2>&1); b=$?
  t=skipped; [ -z "$notest" ] && { bash /opt/vp/test.sh /tmp/so.json >/tmp/st.log 2>&1; t=$(tail -1 /tmp/st.log); }
  r=$(./check.sh "$prop" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($prop): demo clean=$c patched=$b [$(head -c 150 /tmp/sd2.log)] tests=[$t] check rc=$rc $(echo "$r" | grep -m1 -E 'VIOLATION|detail|sig' | head -c 300)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
