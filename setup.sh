#!/bin/bash
# builds the verifier and the harness once, so that a broken tool chain shows here
set -e
cd "$(dirname "$0")"
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
(cd govc && go build -mod=vendor -o "$t/govc" .)
(cd harness && GOFLAGS=-mod=mod go build -o "$t/harness" .)
for s in z3 z3-new cvc5; do command -v $s >/dev/null || echo "note: $s is not there"; done
