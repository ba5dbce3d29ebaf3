#!/bin/bash
# Builds the checker and warms the build caches; offline.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p .bin
(cd engine && go build -o ../.bin/engine .) && (cd harness && go vet ./... >/dev/null 2>&1; go build -o /dev/null ./... ) && (cd harness && go build -race -o /dev/null ./...)
