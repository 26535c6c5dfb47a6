#!/bin/bash
# Builds the analyzer.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB='*' GOTOOLCHAIN=local
mkdir -p "$here/.build" "$here/evidence"
cd "$here/analyzer" && go build -o "$here/.build/jinverify" .
