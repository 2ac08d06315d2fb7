#!/bin/bash
# bash check.sh <property> [quick|thorough]: builds the harness against /repo's
# working tree, runs the workloads of one property and prints the verdict.
# exit 0: held; 1: VIOLATION; 2: no verdict (build or harness problem, nothing observed)
ID="${1:?usage: check.sh ID [tier]}"
TIER="${2:-${VERIF_TIER:-quick}}"
SEED="${VERIF_SEED:-1}"
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
unset GOMAXPROCS GODEBUG GOCOVERDIR
TMP="$(mktemp -d /tmp/vh.XXXXXX)" || exit 2
trap 'rm -rf "$TMP"' EXIT
cd "$HERE/harness" || exit 2
if ! go build -cover -covermode=set -coverpkg=github.com/lkmio/avformat/...,verif/harness -o "$TMP/vh" . 2>"$TMP/build.log"; then
  cat "$TMP/build.log"; echo "BUILD FAILED (plain)"; exit 2
fi
if "$TMP/vh" -needrace "$ID"; then
  if ! go build -race -o "$TMP/vhrace" . 2>"$TMP/build.log"; then
    cat "$TMP/build.log"; echo "BUILD FAILED (race)"; exit 2
  fi
fi
mkdir -p "$TMP/run"
"$TMP/vh" -prop "$ID" -tier "$TIER" -seed "$SEED" -bin "$TMP/vh" -racebin "$TMP/vhrace" -verif "$HERE" -dir "$TMP/run"
