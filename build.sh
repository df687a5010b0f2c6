#!/bin/bash
# Builds the condition generator from /verif/engine (offline).
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
mkdir -p bin evidence replays
(cd engine && go build -o ../bin/eng .)
# warm the build cache for the replay harness
(cd replay && go build -o ../bin/replay-setup . && rm -f ../bin/replay-setup) || true
