#!/bin/bash
# Warms the Go build cache: compiles the harness and the race-detector runtime once.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
T="$(mktemp -d /tmp/vh.XXXXXX)" || exit 1
trap 'rm -rf "$T"' EXIT
cd "$HERE/harness" || exit 1
go build -cover -covermode=set -coverpkg=github.com/lkmio/avformat/...,verif/harness -o "$T/vh" . && go build -race -o "$T/vhrace" . && "$T/vh" -list >/dev/null
