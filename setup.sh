#!/bin/bash
# Builds the framework once, to warm the build cache; every check builds it
# again from the current tree.
cd "$(dirname "$0")/mc" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
export PATH=$PATH:/usr/local/go/bin
t=$(mktemp -d) || exit 1
trap 'rm -rf -- "$t"' EXIT
go build -o "$t/instr" ./cmd/instr && go build -o "$t/mc" ./cmd/mc && "$t/mc" list
