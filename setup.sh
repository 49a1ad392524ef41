#!/bin/bash
# warms the Go build cache by building the checker from the committed files and /repo's tree.
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GONOSUMDB=* GONOSUMCHECK=1
D="$(mktemp -d /tmp/mcsetup.XXXXXX)" || exit 2
trap 'rm -rf "$D"' EXIT
(cd mc && go build -o "$D/mc" .) || exit 1
