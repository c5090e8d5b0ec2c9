"""Helpers to write /verif/seeded/<id>/ from replacements in /repo (used by hand, by no check)."""
import json, os, subprocess
SEEDED = os.environ.get("SEEDED", "/verif/seeded")
REPO = os.environ.get("SEED_REPO", "/repo")
GO_DEMO = '''#!/bin/bash
# In-package test laid over /repo: fails with the change, passes without it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"/repo/%(dir)sseed_demo_test.go\\":\\"$here/demo_test.go.txt\\"}}" > "$t/overlay.json"
cd /repo && go test -vet=off -count=1 -overlay "$t/overlay.json" -run TestSeedDemo %(flags)s ./%(dir)s
'''
GEN_DEMO = '''#!/bin/bash
# Runs the generator of /repo on the project beside this script, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cd /repo && go build -o "$t/gotsrpc" ./cmd/gotsrpc || exit 1
cp -r "$here/proj" "$t/proj"
cd "$t/proj" || exit 1
for f in $(find . -name 'go_mod'); do mv "$f" "$(dirname "$f")/go.mod"; done
for f in $(find . -name '*.go.txt'); do mv "$f" "${f%%.txt}"; done
compiles() { # the project with what was generated
    sed -e "s#^module .*#module example.com/p#" /repo/go.mod > go.mod
    printf '\nrequire github.com/foomo/gotsrpc/v2 v2.0.0\n\nreplace github.com/foomo/gotsrpc/v2 => /repo\n' >> go.mod
    cp /repo/go.sum . && go build -mod=mod ./... > "$t/log" 2>&1
}
gen() { "$t/gotsrpc" gotsrpc.yml > "$t/log" 2>&1; }
fail() { echo "FAIL: $*"; tail -5 "$t/log"; exit 1; }
'''
def seed(id, prop, edits, needs, breaks, go=None, godir="", flags="", gen=None, proj=None, demo=None):
    d = os.path.join(SEEDED, id)
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "status", "--porcelain"], capture_output=True, text=True).stdout == "", "dirty /repo"
    try:
        for f, old, new in edits:
            p = REPO + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        subprocess.run(["gofmt", "-l", "-w"] + sorted({REPO + "/" + e[0] for e in edits}), check=True)
        diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    for name, text in (proj or {}).items():
        p = os.path.join(d, "proj", name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(text)
    if go:
        open(d + "/demo_test.go.txt", "w").write(go)
        demo = GO_DEMO % {"dir": godir, "flags": flags}
    elif gen:
        demo = GEN_DEMO.replace("%%", "%") + gen
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
