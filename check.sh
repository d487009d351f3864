#!/bin/bash
# usage: check.sh PROPERTY TIER  -- decides one property on /repo's working tree
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=0
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
tmp="$(mktemp -d /tmp/gosymbin.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && go build -o "$tmp/gosym" .) || { echo "the engine does not build"; exit 2; }
"$tmp/gosym" -verif "$here" -repo "${REPO:-/repo}" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
