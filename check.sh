#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]   -- builds the checker from /repo's working tree and runs one property.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}" VERIF_SEED="${VERIF_SEED:-1}"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1 GOFLAGS=-mod=mod
BIN="$(mktemp -d /tmp/mcbin.XXXXXX)" || exit 2
trap 'rm -rf "$BIN"' EXIT
(cd mc && go build -o "$BIN/mc" .) || { echo "build failed"; exit 2; }
"$BIN/mc" check "$1"
