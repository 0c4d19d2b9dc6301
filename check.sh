#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the engine from /verif/engine, then decides PROPERTY for /repo's current tree.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-${VERIF_TIER:-quick}}
for g in /opt/veriftools/go1.26.10/bin; do [ -x $g/go ] && PATH=$g:$PATH; done
export PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=mod CGO_ENABLED=0
work=$(mktemp -d /tmp/zzverif-bin.XXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
if ! [ -w "$(go env GOCACHE 2>/dev/null || echo /nonexistent)" ] && ! mkdir -p "$(go env GOCACHE)" 2>/dev/null; then
	export GOCACHE=$work/cache
fi
(cd "$here/engine" && go build -o "$work/zzengine" .) || { echo "engine build failed" >&2; exit 3; }
"$work/zzengine" -verif "$here" -repo "${ZZ_REPO:-/repo}" -prop "$prop" -tier "$tier" ${ZZ_FLAGS:-}
