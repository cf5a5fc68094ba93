#!/bin/sh
# usage: check.sh PROPERTY [tier]
cd "$(dirname "$0")" || exit 3
V=$(pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export PATH=/usr/local/go/bin:$PATH
[ -x "$V/.bin/govc" ] || (cd "$V/govc" && go build -o "$V/.bin/govc" .) || exit 3
exec "$V/.bin/govc" check -repo "${REPO:-/repo}" -verif "$V" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
