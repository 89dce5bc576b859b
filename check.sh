#!/bin/bash
# check.sh ID [quick|thorough]   decide one property
# check.sh --replay FILE         run a recorded case again
# check.sh --list                list the checks
#
# The harness is always built anew, from the working tree of /repo.
dir=$(cd "$(dirname "$0")" && pwd) || exit 2
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
export ICSVERIF_DIR=$dir
unset GOENV GOROOT GODEBUG

build=$(mktemp -d /tmp/icsverif-build-XXXXXX) || exit 2
trap 'rm -rf "$build"' EXIT

make_binary() { # flags
    cp "$dir"/harness/*.go "$dir"/harness/go.mod "$dir"/harness/go.sum "$build"/ || return 1
    (cd "$build" && go build "$@" -o "$build/icsverif" .)
}

case "$1" in
--list)
    CGO_ENABLED=0 make_binary || exit 2
    "$build/icsverif" list
    exit
    ;;
--replay)
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
    set -- "$id" replay "$2"
    ;;
esac

id=$1
tier=${2:-${VERIF_TIER:-quick}}

case "$id" in
C13)
    CGO_ENABLED=1 make_binary -race -cover -covermode=atomic -coverpkg=vimagination.zapto.org/ics || exit 2
    ;;
*)
    CGO_ENABLED=0 make_binary -cover -covermode=set -coverpkg=vimagination.zapto.org/ics || exit 2
    ;;
esac

if [ "$tier" = replay ]; then
    "$build/icsverif" replay "$3"
else
    "$build/icsverif" check "$id" "$tier"
fi
exit
