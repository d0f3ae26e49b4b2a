#!/bin/bash
# Builds the analyser from the committed files.
set -e
cd "$(dirname "$0")/tool"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
mkdir -p ../bin
go build -o ../bin/xwcheck .
