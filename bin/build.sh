#!/bin/bash
# Builds the verifier from the committed sources (offline).
set -e
cd "$(dirname "$0")/../govc"
unset GOROOT
export PATH=/usr/local/bin:/usr/bin:/bin HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
out=../bin/govc
if [ -x $out ] && [ -z "$(find . -newer $out -name '*.go' -print -quit)" ]; then exit 0; fi
go build -o $out.$$ .
mv $out.$$ $out
