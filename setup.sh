#!/bin/bash
# Builds the verifier from the committed sources, offline.
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh 2>/dev/null
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p bin evidence
go build -o bin/govc ./govc || exit 2
