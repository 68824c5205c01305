#!/bin/bash
# usage: run.sh PROPERTY REPO TIER: exit 1 and a line FAILING-INPUT when the
# code in REPO breaks the property on some input, 0 when none is found
H=$(cd "$(dirname "$0")" && pwd)
P=$1 R=$2 LIMIT=${REPLAY_LIMIT:-90}
[ "$3" = thorough ] && LIMIT=240
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
T=$(mktemp -d /tmp/replay.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir -p $T/m/newobs $T/m/refobs $T/work $T/code
cp -r "$R"/. $T/code/ 2>/dev/null; rm -rf "$T/code/.git"
sed 's#SUT#github.com/vim-jp/go-vimlparser#' $H/obs.go.txt > $T/m/newobs/obs.go
sed 's#SUT#ref.local/vp#' $H/obs.go.txt > $T/m/refobs/obs.go
cp $H/main.go.txt $T/m/main.go
cat > $T/m/go.mod <<X
module replay

go 1.14

require github.com/vim-jp/go-vimlparser v0.0.0

require ref.local/vp v0.0.0

replace github.com/vim-jp/go-vimlparser => $T/code

replace ref.local/vp => $H/ref
X
cd $T/m
race=
[ "$P" = C17 ] && race=-race
go build $race -o $T/replay . || exit 2
if [ "$P" = C19 ]; then
  go build -o $T/new github.com/vim-jp/go-vimlparser/cmd/vimlparser || exit 2
  go build -o $T/ref ref.local/vp/cmd/vimlparser || exit 2
  timeout 300 $T/replay C19 1 60 $T/new $T/ref $T/work
  exit $?
fi
ulimit -v 16000000 2>/dev/null; [ -n "$race" ] && ulimit -v unlimited 2>/dev/null
GORACE="halt_on_error=1 exitcode=66" timeout 330 $T/replay $P ${VERIF_SEED:-1} $LIMIT - - $H/ref/corpus > $T/out 2> $T/err
rc=$?
head -c 20000 $T/out
head -c 3000 $T/err
if [ $rc = 66 ]; then echo "FAILING-INPUT concurrent parses: data race"; exit 1; fi
if grep -q 'stack overflow\|goroutine stack exceeds\|out of memory' $T/err; then echo "FAILING-INPUT the process dies: unbounded recursion or memory"; exit 1; fi
if [ $rc != 0 ] && [ $rc != 1 ]; then echo "driver ended with status $rc"; [ $rc = 2 ] && grep -q 'fatal error\|panic' $T/err && { echo "FAILING-INPUT the process dies"; exit 1; }; fi
exit $rc
