#!/bin/bash
# seedcheck.sh [-a] [id...]: runs the check of each planted bug's property (-a: all checks) with the bug applied to a
# private copy of /repo that is mounted over /repo in a namespace of its own, from a copy of /verif.
all=; [ "$1" = -a ] && { all=1; shift; }
w=$(mktemp -d /tmp/seedcheck.XXXXXX); cp -a /verif "$w/verif"; rm -rf "$w/verif/.git"
D=${SEEDDIR:-/verif/seeded}; ids="${*:-$(ls "$D")}"
for id in $ids; do
 p=$(python3 -c "import json;print(json.load(open('$D/$id/meta.json'))['property'])")
 rm -rf "$w/repo"; cp -a /repo "$w/repo"
 git -C "$w/repo" checkout -q -- .
 git -C "$w/repo" apply "$D/$id/patch.diff" || { echo "$id: does not apply"; continue; }
 qs=$p; [ -n "$all" ] && qs=$(python3 -c "import json;print(*json.load(open('/verif/bounds.json')))")
 for q in $qs; do
  s=$(date +%s)
  unshare -Urm bash -c "mount --bind $w/repo /repo && cd $w/verif && VERIF_TIER=quick timeout 900 ./check.sh $q quick" > "$w/log" 2>&1; r=$?
  cp "$w/log" "/tmp/w/sc-$id-$q.log"
  echo "$id $p: $q exit $r $(( $(date +%s)-s ))s $(grep -m1 -o 'harness [A-Za-z0-9_]*: [^(]*' "$w/log")"
 done
done
rm -rf "$w"
