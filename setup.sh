#!/bin/bash
# Warms the Go build cache; every check builds again from /repo's working tree.
cd "$(dirname "$0")" || exit 2
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
mkdir -p out/bin out/replays evidence
cd harness || exit 2
for d in cmd/*/; do
  go build -o "../out/bin/$(basename "$d")" "./$d" || echo "setup: $d does not build" >&2
done
CGO_ENABLED=1 go build -race -o ../out/bin/det ./cmd/det || echo "setup: no race detector" >&2
exit 0
