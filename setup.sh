#!/bin/bash
# Nothing is needed beyond the installed toolchain; this only shows that the monitors build.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOSUMDB=off
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
mkdir -p "$HERE/evidence"
cd "$HERE/harness" && go build -o /dev/null . && echo ok
