#!/bin/bash
# Builds the analyser from the committed sources, offline.
set -e
cd "$(dirname "$0")/zkstat"
mkdir -p ../bin
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GO111MODULE=on CGO_ENABLED=0
go build -o ../bin/zkstat.$$ . && mv -f ../bin/zkstat.$$ ../bin/zkstat
