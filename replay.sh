#!/bin/bash
# replay.sh FILE: runs the real code on the counterexample recorded in FILE (exit 1 if it still fails).
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p .bin
(cd engine && go build -o ../.bin/engine .) || exit 2
cd harness && exec ../.bin/engine replay "$f"
