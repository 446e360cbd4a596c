#!/bin/bash
# usage: check.sh PROPERTY quick|thorough [engine flags]
# Builds the engine and the native replayer from the current sources, then decides the property.
set -u
cd "$(dirname "$0")"
V=$PWD; P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift || true
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p build evidence
(cd engine && go build -o ../build/engine .) || { echo "engine does not build"; exit 2; }
if [ "$P" = C30 ]; then R=build/replay-race; (cd harness && go build -race -o ../$R ./replay) || exit 2
else R=build/replay; (cd harness && go build -o ../$R ./replay) || { echo "harness does not build against /repo"; exit 2; }; fi
B=600; [ "$T" = quick ] && B=240
exec build/engine -harness "$V/harness" -prop "$P" -tier "$T" -replay "$V/$R" -evidence "$V/evidence/$P.json" \
  -known "$V/known_findings.jsonl" -out "$V/build/cex" -seed "${VERIF_SEED:-1}" -budget $B -j 8 -level model_checking "$@"
