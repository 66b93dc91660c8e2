#!/bin/bash
# builds the verifier from the committed sources (offline)
set -e
cd "$(dirname "$0")"
mkdir -p bin evidence
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
(cd govc && go build -o ../bin/govc .)
# warm the build cache of the executable contracts
(cd rac && PATH=/opt/veriftools/go1.23.12/bin:$PATH go build -o ../bin/rac .) || true
