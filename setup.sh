#!/bin/bash
# builds the engine from the committed sources, offline
set -e
cd "$(dirname "$0")"
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOWORK=off
mkdir -p bin evidence
cd gosym
go build -o ../bin/gosym.$$ .
mv ../bin/gosym.$$ ../bin/gosym
