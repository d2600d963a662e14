#!/bin/bash
# Builds govc from the committed sources (offline).
cd "$(dirname "$0")/govc" || exit 2
export HOME=/root GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
newest=$(ls -t *.go go.mod | head -1)
if [ ! -x ../bin/govc ] || [ "$newest" -nt ../bin/govc ]; then
	mkdir -p ../bin && go build -o ../bin/govc . || exit 2
fi
