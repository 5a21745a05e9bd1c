#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough] [flags of the engine]
# Builds the engine (engine/) if needed and decides one property on /repo's current tree.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin"
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOTOOLCHAIN=local GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-$HOME/.cache/go-build}"
prop=$1; shift
tier=${1:-${VERIF_TIER:-quick}}; [ $# -gt 0 ] && shift
mkdir -p "$V/.bin" evidence || exit 2
# the engine is rebuilt when its sources change; go's cache makes that cheap
tmp="$V/.bin/symgo.$$"
(cd engine && go build -o "$tmp" .) || exit 2
mv -f "$tmp" "$V/.bin/symgo"
[ "$prop" = setup ] && { (cd harness && go vet . >/dev/null 2>&1); exit 0; }
exec "$V/.bin/symgo" -verif "$V" -prop "$prop" -tier "$tier" "$@"
