#!/bin/bash
# run in the root of the avformat working tree: exit 0 when the behaviour is intact
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$PWD"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/go/bin:/usr/bin:/bin:$PATH"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
T="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf "$T"' EXIT
cp "$HERE/main.go.txt" "$T/main.go"
cp "$HERE/helpers.go.txt" "$T/helpers.go"
printf 'module demo\n\ngo 1.19\n\nrequire github.com/lkmio/avformat v0.0.0\n\nreplace github.com/lkmio/avformat => %s\n' "$REPO" >"$T/go.mod"
cd "$T" || exit 3
go build @RACE@ -o "$T/demo" . || exit 4
mkdir "$T/w" && cd "$T/w" || exit 3
timeout 120 "$T/demo" >"$T/out" 2>&1
rc=$?
tail -n 5 "$T/out"
exit $rc
