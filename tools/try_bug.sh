#!/bin/bash
# usage: tools/try_bug.sh ID [PROP...]  -- development aid: confirms the planted bug seeded/ID in a scratch copy
# (builds, stable tests pass, demo 0 without / non-zero with) and runs the checks PROP (default: its own) against the copy.
. /opt/vp/env.sh
ID="$1"; shift
SD=/verif/seeded/$ID
W=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo "$W/repo"
cd "$W/repo" && git checkout -q -- . && git apply "$SD/patch.diff" || { echo "APPLY FAILED"; rm -rf "$W"; exit 1; }
go build ./... || { echo "BUILD FAILED"; rm -rf "$W"; exit 1; }
if [ -z "$NOTEST" ]; then
go test -vet=off -count=1 -timeout 10m ./... > "$W/test.log" 2>&1 && echo "tests: pass" || { echo "tests: FAIL"; grep -E "^(---|    ---|FAIL)" "$W/test.log" | head; }
D="$W/demo"; mkdir "$D"; cp "$SD"/* "$D"/; rm -f "$D"/*.diff "$D"/meta.json
# the demo runs with cwd = tree under test
(cd /repo && bash "$D/demo.sh" >"$W/d0.log" 2>&1); echo "demo unchanged: $?"
(cd "$W/repo" && bash "$D/demo.sh" >"$W/d1.log" 2>&1); echo "demo patched: $?"
[ -n "$SHOW" ] && { tail -15 "$W/d0.log"; echo ---; tail -15 "$W/d1.log"; }
fi
PROPS="$*"
[ -z "$PROPS" ] && PROPS=$(python3 -c "import json;print(json.load(open('$SD/meta.json'))['property'])")
export VERIF_DIR="$W/v" VERIF_TIER=quick VERIF_SEED=1 VERIF_REPO="$W/repo"
mkdir -p "$W/v"; cp /verif/known_findings.json "$W/v/"
cp -a /verif/mc "$W/v/mc"; sed -i "s#=> /repo#=> $W/repo#" "$W/v/mc/go.mod"
(cd "$W/v/mc" && go build -o "$W/mcbin" .) || echo "MC BUILD FAILED"
for p in $PROPS; do
  timeout 900 "$W/mcbin" check $p > "$W/out.$p" 2>&1; rc=$?
  echo "check $p: rc=$rc $(grep -E '^property=' "$W/out.$p" | sed 's/.*wall/wall/') $(grep -E '^-- ' "$W/out.$p" | head -3)"
done
rm -rf "$W"
