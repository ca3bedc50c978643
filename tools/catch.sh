#!/bin/bash
# catch.sh ID [PROP]...: applies a planted change to /repo, runs the quick checks of its property
# (or of the properties named), and takes it back
id=$1; shift
d=/verif/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
git -C /repo apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  s=$(date +%s)
  /verif/run.sh $p quick > /tmp/catch.out 2>&1; rc=$?
  echo "$id $p exit $rc $(( $(date +%s) - s )) s: $(grep -A1 VIOLATION /tmp/catch.out | tail -1 | cut -c1-220)"
done
