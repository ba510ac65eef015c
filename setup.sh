#!/bin/bash
# Builds the verifier from the committed files.
cd "$(dirname "$0")/gv" || exit 2
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
mkdir -p ../bin
go build -o ../bin/gv .
