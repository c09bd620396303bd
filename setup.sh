#!/bin/bash
# Builds the framework once, and runs one of the checks that compile generated code, so that the Go
# build cache is warm.
set -u
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GONOSUMDB='*' GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local
cd harness && go build -o /dev/null ./cmd/check
