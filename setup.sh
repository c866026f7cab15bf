#!/bin/bash
# Compiles the harness once in both modes, to warm the build cache.
set -eu
cd "$(dirname "$0")/harness"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/h" .
go build -race -o "$tmp/hr" .
"$tmp/h" -list > /dev/null
