#!/bin/bash
# run in the repository: builds the program and shows the broken behaviour; exit 0 when it is right
set -u
D=$(mktemp -d) || exit 2
trap 'kill $(jobs -p) 2>/dev/null; rm -rf "$D"' EXIT
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
CGO_ENABLED=0 go build -buildvcs=false -o "$D/osvd" . || exit 2
mkdir "$D/w" "$D/tmp"; export TMPDIR=$D/tmp
cd "$D/w" || exit 2
osvd() { timeout 60 "$D/osvd" "$@"; }
bad() { echo "BROKEN: $*"; exit 1; }
adv() { # id ecosystem name extra-affected-json
  echo "{\"id\":\"$1\",\"affected\":[{\"package\":{\"ecosystem\":\"$2\",\"name\":\"$3\"},$4}]}"
}
ANY='"ranges":[{"type":"ECOSYSTEM","events":[{"introduced":"0"}]}]'
