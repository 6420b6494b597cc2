#!/bin/bash
# check.sh <property> quick|thorough [--replay FILE]
# Builds the monitors against /repo's current tree and runs them.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
PROP="${1:?property}"; TIER="${2:-quick}"; shift 2 || true
REPLAY=""
[ "${1:-}" = "--replay" ] && REPLAY="${2:?replay file}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off CGO_ENABLED="${CGO_ENABLED:-1}"
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
unset GOEXPERIMENT GODEBUG
TMP="$(mktemp -d /tmp/verif.XXXXXX)" || exit 2
trap 'rm -rf "$TMP"' EXIT
mkdir -p "$HERE/evidence"
RACE=""
case "$PROP" in C27) RACE="-race";; esac
if ! (cd "$HERE/harness" && go build $RACE -o "$TMP/mon" .) >"$TMP/build.log" 2>&1; then
  echo "INCONCLUSIVE $PROP: the monitors do not build against this tree"; cat "$TMP/build.log"; exit 2
fi
if [ -n "$RACE" ]; then
  # the same workloads without the detector: more of them, and tighter interleavings
  (cd "$HERE/harness" && go build -o "$TMP/plain" .) >"$TMP/build.log" 2>&1 || { cat "$TMP/build.log"; exit 2; }
  export VERIF_PLAIN="$TMP/plain"
fi
export TMPDIR="$TMP"
"$TMP/mon" -prop "$PROP" -tier "$TIER" -seed "${VERIF_SEED:-1}" -out "$HERE/evidence" -findings "$HERE/known_findings.txt" -data "$HERE/data" ${REPLAY:+-replay "$REPLAY"}
