#!/bin/bash
# builds the framework (offline); the checks rebuild it from the Go cache
cd "$(dirname "$0")/govc" || exit 2
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
T=$(mktemp -d /tmp/govc.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
go vet . && go build -o "$T/govc" .
