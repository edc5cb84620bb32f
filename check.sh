#!/bin/bash
# ./check.sh PROPERTY quick|thorough     verify one property of /repo's working tree
# ./check.sh -replay FILE                run a recorded counterexample again
# ./check.sh -build                      only build the verifier
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
here=$(cd "$(dirname "$0")" && pwd)
repo=${REPO:-/repo}
work=$(mktemp -d /tmp/gvc-check.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
export TMPDIR=$work
(cd "$here/gvc" && go build -o "$work/gvc" .) || exit 2
case "$1" in
-build) exit 0 ;;
-replay) "$work/gvc" -repo "$repo" -contracts "$here/contracts" -replay "$2"; exit $? ;;
C[0-9][0-9]) ;;
*) echo "usage: $0 PROPERTY quick|thorough" >&2; exit 2 ;;
esac
tier=${2:-${VERIF_TIER:-quick}}
mkdir -p "$here/evidence/replays"
"$work/gvc" -repo "$repo" -contracts "$here/contracts" -prop "$1" -tier "$tier" \
	-evidence "$here/evidence/$1.json" -known "$here/known-findings.jsonl" \
	-replays "$here/evidence/replays" $GVC_ARGS
