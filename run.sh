#!/bin/bash
# run.sh <property> <quick|thorough>: builds the verifier if needed and runs one check against /repo.
cd "$(dirname "$0")" || exit 2
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
./build.sh || exit 2
exec bin/govc check "$1" --tier "${2:-quick}"
