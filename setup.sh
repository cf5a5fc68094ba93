#!/bin/sh
cd "$(dirname "$0")" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local CGO_ENABLED=1
export PATH=/usr/local/go/bin:$PATH
mkdir -p .bin evidence
cd govc && go build -o ../.bin/govc . && cd .. && ./.bin/govc list >/dev/null
