#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, prop, edits=[(file, old, new)], demo (Go main source), needs, what.
Confirms in a scratch copy that the change builds, passes the tests, and that demo.sh tells it apart; then stores it."""
import sys, os, subprocess, shutil, json, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds, nonzero when it is broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src/github.com/mit-dci" "$t/demo"
ln -s "$repo" "$t/src/github.com/mit-dci/zksigma"
cp "$here/main.go.txt" "$t/demo/main.go"
cd "$t/demo"
GO111MODULE=off GOPATH="$t" GOFLAGS= timeout 250 go run %s main.go
'''
TEST = '''#!/bin/bash
# cwd: the repository. Exit 0 when the property holds, nonzero when it is broken.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src/github.com/mit-dci"
ln -s "$repo" "$t/src/github.com/mit-dci/zksigma"
cp "$here/main.go.txt" "$t/demo_test.go"
p="$t/src/github.com/mit-dci/zksigma/%s"
echo "{\\"Replace\\": {\\"$p/zz_demo_test.go\\": \\"$t/demo_test.go\\"}}" > "$t/overlay.json"
cd "$p"
GO111MODULE=off GOPATH="$t" GOFLAGS= timeout 250 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestZZDemo$' .
'''
def one(sp):
    d = "/verif/seeded/" + sp["id"]
    t = tempfile.mkdtemp(prefix="seed")
    try:
        w = t + "/repo"
        sh(f"git -C /repo worktree prune; cp -a /repo {w}")
        for f, old, new in sp["edits"]:
            p = f"{w}/{f}"; s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = sh(f"git -C {w} diff").stdout
        demodir = t + "/d"; os.makedirs(demodir)
        open(demodir + "/main.go.txt", "w").write(sp["demo"])
        open(demodir + "/demo.sh", "w").write(TEST % sp["pkg"] if "pkg" in sp else DEMO % sp.get("goflags", ""))
        g = t + "/gp/src/github.com/mit-dci"; os.makedirs(g); os.symlink(w, g + "/zksigma")
        env = dict(os.environ, GO111MODULE="off", GOPATH=t + "/gp")
        r = sh(f"cd {g}/zksigma && go vet ./... >/dev/null 2>&1; go build . ./btcec ./wire", env=env)
        ok = r.returncode == 0
        if not ok: print(r.stdout[-1500:])
        r = sh(f"cd {g}/zksigma && go test -count=1 -vet=off . ./btcec ./wire 2>&1 | tail -30", env=env)
        tests = r.stdout
        tok = "FAIL" not in tests
        a = sh(f"cd /repo && bash {demodir}/demo.sh"); b = sh(f"cd {w} && bash {demodir}/demo.sh")
        print(sp["id"], "build", ok, "tests", tok, "demo clean", a.returncode, "demo bug", b.returncode)
        if a.returncode: print(a.stdout[-1500:])
        print("  bug says:", b.stdout.strip()[-300:])
        if not tok: print(tests)
        if ok and tok and a.returncode == 0 and b.returncode != 0:
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            for f in ("main.go.txt", "demo.sh"): shutil.copy(demodir + "/" + f, d + "/" + f)
            json.dump({"property": sp["prop"], "needs": sp["needs"], "what_it_breaks": sp["what"]}, open(d + "/meta.json", "w"), indent=1)
            print("  stored")
    finally:
        shutil.rmtree(t)
for sp in spec.get("specs", []): one(sp)
