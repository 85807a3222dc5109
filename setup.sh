#!/bin/bash
# setup.sh: build the verifier (offline, from the module cache).
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 1
mkdir -p bin
cd gvc && go build -o ../bin/gvc .
