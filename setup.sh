#!/bin/bash
# Builds the framework once so that a broken toolchain shows early; every check builds its own copy.
set -e
cd "$(dirname "$0")"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go
export PATH=/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin:$PATH
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd tools/goverus && go vet . && go build -o "$d/goverus" .)
(cd harness && go build -o "$d/harness" .)
verus --version >/dev/null
echo setup ok
