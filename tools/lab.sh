#!/bin/bash
# lab.sh LAB PATCH|- [PROP[:ONLY]]...: like catch.sh, but on copies of /repo and /verif in /tmp/LAB, so that
# /repo stays as it is. PATCH is a planted bug, a patch file, or - for none. TIER=quick|thorough.
lab=/tmp/$1; patch=$2; shift 2
tier=${TIER:-quick}
mkdir -p $lab/repo $lab/verif
rsync -a --delete --exclude target --exclude .git /repo/ $lab/repo/
rsync -a --delete --exclude target --exclude .git --exclude seeded --exclude replays --exclude evidence /verif/ $lab/verif/
sed -i "s#\"/repo/#\"$lab/repo/#g" $lab/verif/*/Cargo.toml $lab/verif/run.sh
id=$patch; props=$*
if [ "$patch" != - ]; then
  [ -f "$patch" ] || { d=/verif/seeded/$patch; patch=$d/patch.diff
    [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); }
  (cd $lab/repo && git apply --unsafe-paths --directory="" $patch 2>/dev/null || patch -p1 -s < $patch) || exit 2
fi
for p in $props; do
  s=$(date +%s)
  only=${p#*:}; [ "$only" = "$p" ] && unset MC_ONLY || export MC_ONLY=$only
  $lab/verif/run.sh ${p%:*} $tier > $lab/out 2>&1; rc=$?
  echo "$(basename "${id%.diff}") $p exit $rc $(( $(date +%s) - s )) s: $(grep -A1 VIOLATION $lab/out | tail -1 | cut -c1-220)"
  [ $rc = 2 ] && tail -5 $lab/out
done
