#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
root=$(pwd)
. /opt/vp/env.sh
newest=$(ls -t gocv/*.go gocv/go.mod gocv/go.sum build/gocv 2>/dev/null | head -1)
[ "$newest" = build/gocv ] || bash ./setup.sh || exit 2
exec ./build/gocv check -root "$root" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
