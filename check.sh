#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's current tree.
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local
tmp="$(mktemp -d /tmp/verif-eng.XXXXXX)" || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && go build -o "$tmp/eng" .) || exit 2
bash "$here/harness/gen.sh" || exit 2
"$tmp/eng" -prop "$1" -tier "$tier" -verif "$here"
