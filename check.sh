#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
V=$PWD
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
T=$(mktemp -d /tmp/govc.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
(cd govc && go build -o "$T/govc" .) || exit 2
"$T/govc" run -repo /repo -verif "$V" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
