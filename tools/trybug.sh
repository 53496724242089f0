#!/bin/bash
# run the check of a seeded bug's property on a scratch copy with the bug: trybug.sh ID...
cd /verif
for id in "$@"; do
  w=$(mktemp -d /tmp/trybugXXXX)
  git -C ${SEED_REPO:-/repo} archive HEAD | tar x -C $w
  (cd $w && git init -q . && git apply /verif/seeded/$id/patch.diff) || echo "patch failed"
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  mv evidence/$prop.json /tmp/$prop.ev.bak 2>/dev/null
  out=$(VC_REPO=$w timeout 900 python3-vt check.py $prop 2>&1); rc=$?
  mv /tmp/$prop.ev.bak evidence/$prop.json 2>/dev/null
  echo "== $id rc=$rc"; echo "$out" | tail -6 | cut -c1-400
  rm -rf $w
done
