#!/bin/bash
# Builds the analyzer. It reads /repo only when it is run.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
mkdir -p bin
cd analyzer && go build -o ../bin/analyzer .
