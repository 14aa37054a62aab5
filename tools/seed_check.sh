#!/bin/bash
# tools/seed_check.sh ID...: confirm a planted bug on /repo (applied, tried, undone), then run its property's check
cd /repo || exit 2
git diff --quiet || { echo "/repo dirty"; exit 2; }
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  w=$(mktemp -d); cp "$d"/*.rs "$d"/*.sh "$d"/*.txt "$w/"; [ -d "$d/shims" ] && cp -r "$d/shims" "$w/"
  bash "$w/demo.sh" > $w/log0 2>&1; r0=$?
  if ! git apply "$d/patch.diff"; then echo "$id: patch does not apply"; continue; fi
  bash "$w/demo.sh" > $w/log1 2>&1; r1=$?
  bash /opt/vp/build.sh > $w/build 2>&1; rb=$?
  bash /opt/vp/test.sh $w/out.json > $w/testlog 2>&1
  bad=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('$w/out.json'))
p=set(o.get('passed',[]));print([t for t in b if t not in p])")
  if [ -n "$NOCHECK" ]; then rc=-; v=; else
  (cd /verif && timeout 900 python3 check.py $prop quick) > $w/check 2>&1; rc=$?
  v=$(grep VIOLATION $w/check); fi
  git checkout -- .
  echo "$id [$prop] demo clean=$r0 patched=$r1 build=$rb failing-tests=$bad check=$rc $v"
  [ $r0 = 0 ] || tail -5 $w/log0
  [ $r1 != 0 ] && tail -2 $w/log1
  rm -rf "$w"
done
