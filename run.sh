#!/bin/bash
# run.sh <property>: decide one property of /repo's current source.
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
if [ ! -x bin/analyzer ] || [ -n "$(find analyzer -newer bin/analyzer -name '*.go' -print -quit)" ]; then
	bash setup.sh || exit 1
fi
exec bin/analyzer -check "$1" -repo /repo -verif "$PWD"
