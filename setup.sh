#!/bin/bash
# warms the build cache, so that the first check is not slower than the others; nothing is kept
cd "$(dirname "$0")" || exit 1
B=$(mktemp -d); trap 'rm -rf "$B"' EXIT
for d in /opt/veriftools/go1.24.13/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH=$d:$PATH && break; done
export PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
(cd harness && CGO_ENABLED=0 go build -buildvcs=false -o "$B/harness" .) || exit 1
(cd /repo && CGO_ENABLED=0 go build -buildvcs=false -trimpath -o "$B/osv-detector" .) || exit 1
(cd /repo && CGO_ENABLED=1 go build -buildvcs=false -race -o "$B/osv-detector-race" .) || exit 1
exit 0
