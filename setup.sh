#!/bin/bash
# Builds the symbolic engine and warms the build cache; offline.
set -e
cd "$(dirname "$0")"
source ./env.sh
mkdir -p bin .cache evidence replays
(cd engine && go build -o ../bin/engine.tmp . && mv ../bin/engine.tmp ../bin/engine)
./bin/engine warm || true
