#!/bin/bash
# Usage: run.sh PROPERTY [-replay FILE]. Builds the check from the current tree of /repo and runs it.
set -u
cd "$(dirname "$0")" || exit 2
id="$1"; shift
root="$(pwd)"
export GOFLAGS=-mod=mod GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local
export GOGC=400
mkdir -p build
bin="$root/build/check.$$"
trap 'rm -f "$bin"' EXIT
if ! (cd harness && go build -o "$bin" ./cmd/check) 2>build/build.$$.log; then
  cat build/build.$$.log >&2
  rm -f build/build.$$.log
  echo "can't build the check" >&2
  exit 2
fi
rm -f build/build.$$.log
"$bin" -id "$id" -root "$root" "$@"
exit $?
