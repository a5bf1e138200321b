#!/bin/bash
# seedtest.sh [ID...]: for each planted bug, build, test, demo on/off, and the check of its property.
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
ids="$*"; [ -n "$ids" ] || ids="$(ls /verif/seeded)"
for id in $ids; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  bash "$d/demo.sh" > /tmp/demo0.log 2>&1; a=$?
  git apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  b=-; t=-
  if [ -z "$FAST" ]; then
    bash /opt/vp/build.sh > /tmp/build.log 2>&1; b=$?
    bash /opt/vp/test.sh /tmp/t.json > /tmp/test.log 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/t.json'));print(len(d['passed']),len(d['failed']))")
  fi
  bash "$d/demo.sh" > /tmp/demo1.log 2>&1; c=$?
  out=$(/verif/check.sh "$prop" 2>&1); k=$?
  git checkout -q -- .
  echo "$id $prop: demo $a/$c build $b tests $t check $k $(echo "$out" | grep -c '^VIOLATION')"
  [ $k -eq 1 ] && echo "$out" | head -1 | cut -c1-200
done
