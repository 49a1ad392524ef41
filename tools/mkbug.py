#!/usr/bin/env python3
"""usage: mkbug.py SPEC.py  -- writes /verif/seeded/<id>/ for each bug(...) call of the spec file."""
import os, subprocess, sys, json, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__))
def bug(id, prop, edits, needs, breaks, test, pkg="vm/nova", common="common_vm.go.txt", flags=""):
    d = f"/verif/seeded/{id}"; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkbug.", dir="/tmp")
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r", "HEAD"], check=True)
    try:
        for f, old, new in edits:
            p = f"{w}/r/{f}"; s = open(p).read()
            if s.count(old) != 1: sys.exit(f"{id}: {s.count(old)} matches in {f} of {old!r}")
            open(p, "w").write(s.replace(old, new))
        fmt = subprocess.run(["gofmt", "-l"] + [f"{w}/r/{e[0]}" for e in edits], capture_output=True, text=True).stdout
        if fmt: print(id, "gofmt:", fmt)
        diff = subprocess.run(["git", "-C", w + "/r", "diff"], capture_output=True, text=True, check=True).stdout
        open(d + "/patch.diff", "w").write(diff)
    finally:
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"]); shutil.rmtree(w, ignore_errors=True)
    reps = f'\\"$R/{pkg}/zz_demo_test.go\\":\\"$H/demo_test.go.txt\\"'
    open(d + "/demo_test.go.txt", "w").write(test)
    if common:
        shutil.copy(f"{H}/bugs/{common}", d + "/common_test.go.txt")
        reps += f',\\"$R/{pkg}/zz_common_test.go\\":\\"$H/common_test.go.txt\\"'
    open(d + "/demo.sh", "w").write(f'''#!/bin/bash
# runs the in-package demonstration test beside this file against the tree in the current directory
H="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cd "$R" || exit 2
echo "{{\\"Replace\\":{{{reps}}}}}" > "$T/o.json"
go test {flags} -vet=off -count=1 -timeout 240s -overlay "$T/o.json" -run 'TestZZDemo' ./{pkg}
''')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
HDR = '''package nova_test

import (
	"testing"

	iotago "github.com/iotaledger/iota.go/v4"
	"github.com/iotaledger/iota.go/v4/vm"
)

var _ vm.InputSet
var _ iotago.SlotIndex

'''
exec(open(sys.argv[1]).read())
