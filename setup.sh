#!/bin/bash
# Builds the verifier and warms the build cache for the oracles.
cd "$(dirname "$0")" || exit 1
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
mkdir -p bin evidence replays
(cd vcgen && go build -o ../bin/vcgen .) || exit 1
(cd /repo && go build -race ./jsonmatcher) || true
(cd /repo && go build ./aqlgraph) || true
exit 0
