#!/bin/bash
# Builds the engine and the harness once, to fill the build cache.
set -e
V="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local CGO_ENABLED=0
mkdir -p "$V/.build" "$V/evidence"
B=$(mktemp -d "$V/.build/setup.XXXXXX")
trap 'rm -rf "$B"' EXIT
cp "$V/harness/go.mod" "$B/h.mod"; cp "$V/harness/go.sum" "$B/h.sum"
(cd "$V/engine" && go build -o "$B/symgo" .)
(cd "$V/harness" && go build -modfile="$B/h.mod" -o "$B/replay" ./cmd/replay)
