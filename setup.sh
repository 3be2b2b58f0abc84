#!/bin/bash
# Compiles the harness once so that later builds find the standard library in the build cache. Not required by the checks.
set -eu
cd "$(dirname "$0")/harness"
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off HOME=${HOME:-/root}
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
out=$(mktemp)
go test -c -vet=off -mod=readonly -o "$out" .
rm -f "$out"
