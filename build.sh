#!/bin/bash
# Builds the analyzer from the committed sources, offline.
set -e
cd "$(dirname "$0")/analyzer"
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOENV=off GOWORK=off GOFLAGS=-mod=vendor
export HOME="${HOME:-/root}"
if [ ! -x ../bin/analyzer ] || [ -n "$(find . -newer ../bin/analyzer -name '*.go' -print -quit)" ]; then
  mkdir -p ../bin
  go build -o ../bin/analyzer.$$ . && mv ../bin/analyzer.$$ ../bin/analyzer
fi
