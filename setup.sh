#!/bin/bash
# builds the analyser once to show that it builds offline; each check builds its own copy
cd "$(dirname "$0")/analyzer" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
go vet . && go build -o /dev/null .
