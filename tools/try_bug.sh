#!/bin/bash
# try_bug.sh ID...: applies each planted bug to /repo, rebuilds, runs the stable tests, its demo and its property's
# check (with the extra property ids in $ALSO), reverts.  Development aid.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo not clean"; exit 1; }
  cp -r $d /tmp/demo.$$; rm -f /tmp/demo.$$/patch.diff /tmp/demo.$$/meta.json
  (cd /repo && bash /tmp/demo.$$/demo.sh) > /tmp/demo.clean.log 2>&1; c=$?
  git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  bash /opt/vp/build.sh > /tmp/build.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/tests.json > /dev/null 2>&1; t=$(python3 -c "import json;o=json.load(open('/tmp/tests.json'));print(len(o['passed']),len(o['failed']))")
  (cd /repo && bash /tmp/demo.$$/demo.sh) > /tmp/demo.bug.log 2>&1; e=$?
  r=""
  for q in $p $ALSO; do
    (cd $V && python3 check.py $q > /tmp/check.log 2>&1); x=$?
    r="$r $q:$x($(grep -c "VIOLATION property=$q" /tmp/check.log))"
  done
  git -C /repo checkout -q -- .
  rm -rf /tmp/demo.$$
  echo "$id [$p] build=$b tests=$t demo clean=$c bug=$e checks:$r"
done
bash /opt/vp/build.sh > /dev/null 2>&1
