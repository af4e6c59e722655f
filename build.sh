#!/bin/bash
# builds the symbolic engine into /verif/bin
set -e
cd "$(dirname "$0")/engine"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
mkdir -p ../bin
go build -o ../bin/engine .
