#!/bin/bash
# builds the verifier, offline
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence
(cd gocv && go build -o ../bin/gocv .)
# warm the build cache of the replay harness's dependencies (not needed for a verdict)
echo built
