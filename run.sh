#!/bin/bash
# usage: run.sh PROPERTY TIER [FLAGS] -- builds the engine and runs one check
#        run.sh --build               -- builds the engine only
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOSUMDB=off GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export HOME="${HOME:-/root}"
mkdir -p build evidence
(cd engine && go build -o ../build/gosym .) || exit 2
[ "$1" = --build ] && exit 0
exec ./build/gosym -verif "$PWD" -repo "${VP_REPO:-/repo}" -property "$1" -tier "${2:-quick}" "${@:3}"
