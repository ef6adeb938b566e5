#!/bin/sh
# Builds the engine into bin/ from the committed sources (vendored dependencies, offline).
cd "$(dirname "$0")" || exit 2
[ -n "$HOME" ] || export HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off
mkdir -p bin && cd engine && GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o ../bin/gosym . || exit 2
cd ../harness && GOFLAGS=-mod=mod CGO_ENABLED=0 go build -o /dev/null ./cmd/replay
