#!/bin/bash
# Builds the verifier from the committed files, offline.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p build
(cd gocv && go build -o ../build/gocv.$$ . && mv -f ../build/gocv.$$ ../build/gocv)
