#!/bin/bash
# check.sh PROPERTY [quick|thorough] [harness]: builds the checker and decides one property
# for /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p .bin
(cd engine && go build -o ../.bin/engine .) || exit 2
cd harness || exit 2
exec ../.bin/engine check -prop "$1" ${2:+-tier "$2"} ${3:+-only "$3"}
