#!/bin/bash
# Warms the Go build cache; every check builds what it needs by itself as well.
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
cd "$(dirname "$0")/harness" || exit 1
mkdir -p ../evidence
W=$(mktemp -d) || exit 1
trap 'rm -rf -- "$W"' EXIT
go build -o "$W/pv" . && go build -race -o "$W/pvr" .
