#!/bin/bash
# check.sh <property> <quick|thorough>   |   check.sh replay <file>   |   check.sh setup
set -u
V="$(cd "$(dirname "$0")" && pwd)"
export GOMEMLIMIT="${GOMEMLIMIT:-14GiB}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOFLAGS=-mod=mod CGO_ENABLED=0
BIN="$V/engine/bin/symgo"
build() {
  mkdir -p "$V/engine/bin"
  (cd "$V/engine" && go build -o "$BIN.$$" . && mv -f "$BIN.$$" "$BIN") || { echo "engine build failed"; exit 2; }
}
case "${1:-}" in
setup) build; exit 0 ;;
esac
if [ ! -x "$BIN" ] || [ -n "$(find "$V/engine" -maxdepth 1 -name '*.go' -newer "$BIN" -print -quit)" ]; then build; fi
unset GOFLAGS
case "$1" in
replay) exec "$BIN" replay -verif "$V" -repo "${REPO:-/repo}" "$2" ;;
*) exec "$BIN" run -verif "$V" -repo "${REPO:-/repo}" -property "$1" -tier "${2:-quick}" ${@:3} ;;
esac
