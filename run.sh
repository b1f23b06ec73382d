#!/bin/bash
# run.sh <property> [quick|thorough]: builds the detector from /repo's working tree and runs the check.
set -u
ID=${1:?usage: run.sh PROPERTY [quick|thorough]}
export VERIF_TIER=${2:-${VERIF_TIER:-quick}} VERIF_SEED=${VERIF_SEED:-1}
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
export HOME=${HOME:-/root}
for d in /opt/veriftools/go1.24.13/bin /usr/local/go/bin; do [ -x "$d/go" ] && PATH=$d:$PATH && break; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
B=$(mktemp -d) || exit 3
trap 'rm -rf "$B"' EXIT
try() { # a build can fail for reasons that are not the code's (memory, disk): try again once
  "$@" && return 0
  sleep 2; "$@"
}
(cd "$VERIF/harness" && CGO_ENABLED=0 try go build -buildvcs=false -o "$B/harness" .) || { echo "cannot build the harness" >&2; exit 3; }
(cd "$REPO" && CGO_ENABLED=0 try go build -buildvcs=false -trimpath -o "$B/osv-detector" .) || { echo "cannot build $REPO" >&2; exit 3; }
args=(-prop "$ID" -bin "$B/osv-detector" -repo "$REPO" -verif "$VERIF")
if "$B/harness" -prop "$ID" -needs-race; then
  (cd "$REPO" && CGO_ENABLED=1 try go build -buildvcs=false -race -o "$B/osv-detector-race" .) || { echo "cannot build $REPO with -race" >&2; exit 3; }
  args+=(-racebin "$B/osv-detector-race")
fi
if [ "$ID" = C16 ]; then
  echo "{\"Replace\": {\"$REPO/internal/verifrace/main.go\": \"$VERIF/lib/verifrace/main.go\"}}" >"$B/overlay.json"
  (cd "$REPO" && CGO_ENABLED=1 try go build -buildvcs=false -race -overlay "$B/overlay.json" -o "$B/verifrace" ./internal/verifrace) && args+=(-libbin "$B/verifrace")
fi
if [ "$ID" = C26 ]; then
  echo "{\"Replace\": {\"$REPO/internal/veriflib/main.go\": \"$VERIF/lib/veriflib/main.go\"}}" >"$B/overlay.json"
  (cd "$REPO" && CGO_ENABLED=0 try go build -buildvcs=false -overlay "$B/overlay.json" -o "$B/veriflib" ./internal/veriflib) && args+=(-libbin "$B/veriflib")
fi
TMPDIR=$B "$B/harness" "${args[@]}"
exit $?
