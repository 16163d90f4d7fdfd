#!/bin/sh
# nothing has to be prepared: every check builds what it needs from /repo. This only fills the build cache.
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
cd "${VERIF_REPO:-/repo}" && go build -o /dev/null ./... 2>/dev/null
go version && python3 --version
