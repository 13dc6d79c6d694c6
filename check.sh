#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker outside /repo and decides one property on /repo's current source.
id=$1; tier=${2:-quick}
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off VERIF_DIR="$here"
d=$(mktemp -d /tmp/chk.XXXXXX)
trap 'rm -rf "$d"' EXIT
fail() { mkdir -p "$here/evidence/replay"; echo "$1" > "$here/evidence/replay/$id.txt"; echo "$1"; echo "VIOLATION property=$id replay=$here/evidence/replay/$id.txt"; exit 1; }
(cd "$here/checker" && go build -o "$d/chk" .) || fail "the checker does not build"
timeout 850 "$d/chk" "$id" "$tier"
rc=$?
case $rc in
0) exit 0 ;;
1) exit 1 ;;
*) fail "the analysis gave no answer (exit $rc)" ;;
esac
