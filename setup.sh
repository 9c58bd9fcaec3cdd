#!/bin/bash
# Nothing to install: every check builds the harness from /repo's tree. This only checks that it can be built here.
cd "$(dirname "$0")/harness" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
exec go build -tags verif -buildvcs=false ./...
