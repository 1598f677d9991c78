#!/bin/bash
# refcheck.sh [-j N] [-p "props"] [id...]: runs the checks on behaviour-preserving refactorings of /repo, each applied to
# a private copy that is mounted over /repo in a namespace of its own, from a copy of /verif. Prints what is not quiet.
j=1; ps=$(python3 -c "import json;print(*json.load(open('/verif/bounds.json')))")
while getopts j:p: o; do case $o in j) j=$OPTARG;; p) ps=$OPTARG;; esac; done; shift $((OPTIND-1))
w=$(mktemp -d /tmp/refcheck.XXXXXX); cp -a /verif "$w/verif"; rm -rf "$w/verif/.git"
one() {
 w=$1; id=$2; shift 2
 cp -a /repo "$w/repo.$id"; cp -a "$w/verif" "$w/verif.$id"
 python3 "$w/verif/tools/refactors.py" "$w/repo.$id" "$id" && gofmt -w "$w/repo.$id"/*.go "$w/repo.$id"/expr/*.go || { echo "$id: does not apply"; return; }
 for q in "$@"; do
  s=$(date +%s)
  unshare -Urm bash -c "mount --bind $w/repo.$id /repo && mount --bind $w/verif.$id /verif && cd /verif && VERIF_TIER=quick timeout 900 ./check.sh $q quick" > "$w/log.$id" 2>&1; r=$?
  cp "$w/log.$id" "/tmp/w/rf-$id-$q.log"
  echo "$id: $q exit $r $(( $(date +%s)-s ))s $(grep -m1 -E 'VIOLATION|harness [A-Za-z0-9_]*:' "$w/log.$id" | cut -c1-200)"
 done
 rm -rf "$w/repo.$id" "$w/verif.$id"
}
export -f one
ids="${*:-$(python3 /verif/tools/refactors.py)}"
printf '%s\n' $ids | xargs -P "$j" -I{} bash -c "one $w {} $(echo $ps)"
rm -rf "$w"
