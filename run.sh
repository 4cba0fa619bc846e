#!/bin/bash
# Usage: run.sh <property> [quick|thorough] | run.sh replay <file> | run.sh build
# Builds the engine from /verif/engine if need be and runs one check against /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB=* GOWORK=off CGO_ENABLED=0
mkdir -p bin
build() { (cd engine && go build -o ../bin/verif ./cmd/verif) || { echo "the engine does not build"; exit 2; }; }
build
case "$1" in
build) exit 0 ;;
replay) exec bin/verif replay "$2" ;;
esac
exec bin/verif check "$1" --tier="${2:-quick}" --verif="$V"
