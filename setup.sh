#!/bin/bash
# builds the verifier and warms the build cache of the code under test
cd "$(dirname "$0")" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=1
mkdir -p .build evidence
( cd gover && go build -o ../.build/gover . ) || exit 1
( cd /repo && go build ./... ) || true
for p in data data/gencoder node util server; do ( cd /repo && go test -vet=off -c -o /dev/null ./$p ) || true; done
exit 0
