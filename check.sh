#!/bin/bash
# check.sh GROUP PROPERTY: builds the group's harness against /repo's working
# tree and runs one property's check.
set -u
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export VERIF_DIR=$PWD VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
mkdir -p out/bin out/replays evidence || exit 2
bin=$PWD/out/bin/$1
build() { (cd harness && go build "${@:2}" -o "$bin" "./cmd/$1") >"out/build-$1.log" 2>&1; }
# The race detector needs a C compiler; without one the check still compares results.
if [ "$1" = det ] && CGO_ENABLED=1 build "$1" -race; then
	exec "$bin" check "$2"
fi
if ! build "$1"; then
	cat "out/build-$1.log" >&2
	echo "check error: the harness does not build against /repo" >&2
	exit 2
fi
exec "$bin" check "$2"
