#!/usr/bin/env python3
"""seed.py ID PROPERTY MODULE PKG: takes the change in the scratch copy /tmp/sd as seeded/ID/patch.diff, checks it
(builds, tests pass, demo fails with it and passes without), and restores the copy.
The demo is seeded/ID/demo_test.go (in package PKG), needs/breaks text from seeded/ID/{needs,breaks}.txt via --needs/--breaks."""
import json, os, subprocess, sys
ID, PROP, MOD, PKG = sys.argv[1:5]
needs, breaks = sys.argv[5:7]
S = "/tmp/sd"
d = "/verif/seeded/" + ID
DEMO = '''#!/bin/bash
# run with the repository as the working directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOCACHE=/root/.cache/go-build
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cp "$repo/MOD/go.mod" "$repo/MOD/go.sum" "$work/"
cat > "$work/overlay.json" <<EOF
{"Replace": {"$repo/MOD/PKG/zz_seeded_demo_test.go": "$here/demo_test.go"}}
EOF
export GOFLAGS="-mod=mod -buildvcs=false -modfile=$work/go.mod" TMPDIR=$work
cd "$repo/MOD" && go test -vet=off -count=1 -timeout 200s -overlay "$work/overlay.json" -run '^TestSeededDemo$' ./PKG
'''
env = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", GOROOT="", GOTOOLCHAIN="local",
           GOPROXY="off", GOWORK="off", CGO_ENABLED="1", GOPATH="/root/go", GOCACHE="/root/.cache/go-build", GOFLAGS="-mod=mod -buildvcs=false")
def sh(c, cwd=S, e=env):
    return subprocess.run(c, shell=True, cwd=cwd, env=e, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
patch = sh("git diff").stdout
ok = True
if not patch.strip():
    if not os.path.exists(d + "/patch.diff"): sys.exit("no change")
    patch = open(d + "/patch.diff").read()
    print(sh("git apply %s/patch.diff" % d).stdout)
open(d + "/patch.diff", "w").write(patch)
open(d + "/demo.sh", "w").write(DEMO.replace("MOD", MOD).replace("PKG", PKG)); os.chmod(d + "/demo.sh", 0o755)
json.dump({"property": PROP, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
for m in ("shlib", "shuttermint"):
    p = sh("go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v 'no test files' | grep -v '^ok'", cwd=S + "/" + m)
    if p.stdout.strip(): ok = False; print("TESTS", m, p.stdout[-3000:])
p = sh(d + "/demo.sh")
print("with patch: rc", p.returncode, p.stdout[-700:])
if p.returncode == 0: ok = False
print(sh("git checkout -- . && git clean -fdq").stdout)
p = sh(d + "/demo.sh")
print("without patch: rc", p.returncode, p.stdout[-300:] if p.returncode else "")
if p.returncode: ok = False
print(ID, "GOOD" if ok else "BAD")
