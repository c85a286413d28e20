#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
source ./env.sh
if [ ! -x bin/engine ] || [ -n "$(find engine -name '*.go' -newer bin/engine 2>/dev/null | head -1)" ]; then
  mkdir -p bin .cache
  (cd engine && go build -o ../bin/engine.$$ . && mv ../bin/engine.$$ ../bin/engine) || { echo "engine does not build"; exit 2; }
fi
exec ./bin/engine check "$1" "${2:-$VERIF_TIER}"
