#!/usr/bin/env python3
"""Development helper: builds and confirms a planted bug under seeded/.

usage: mkseed.py SPEC.py   where SPEC.py defines a list SEEDS of dicts
 id, property, needs, breaks, edits=[(file, old, new)], main=<go source of the demonstration>
"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# Runs the demonstration against the working tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOENV=off GOWORK=off GOFLAGS=-mod=mod
export HOME="${HOME:-/root}"
cp "$here/main.go.txt" "$tmp/main.go"
ver=$(sed -n 's/^go //p' "$repo/go.mod")
printf 'module demo\\n\\ngo %s\\n\\nrequire github.com/shellyln/takenoco v0.0.0\\n\\nreplace github.com/shellyln/takenoco => %s\\n' "$ver" "$repo" > "$tmp/go.mod"
cd "$tmp" && go build RACE -o demo . && timeout 60 ./demo
'''
def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)

ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOENV="off", GOFLAGS="-mod=mod")
def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    return b

def run(seed):
    d = os.path.join(ROOT, "seeded", seed["id"])
    tmp = tempfile.mkdtemp(prefix="seed")
    try:
        repo = tmp + "/repo"
        sh(["cp", "-a", "/repo", repo])
        sh("git checkout -q -- . && git clean -fdq", cwd=repo)
        for f, old, new in seed["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return "edit does not apply: " + f
            n = seed.get("nth", 0)
            if s.count(old) > 1 and "nth" not in seed:
                return "edit is ambiguous (%d): %s" % (s.count(old), f)
            i = -1
            for _ in range(n + 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        diff = sh("git diff", cwd=repo).stdout
        # lines added by fix commits must not be touched
        for f in set(f for f, _, _ in seed["edits"]):
            for m in sh("git diff -U0 -- %s" % f, cwd=repo).stdout.splitlines():
                if m.startswith("@@"):
                    o = m.split()[1][1:]
                    a, n = (o.split(",") + ["1"])[:2]
                    a, n = int(a), int(n)
                    if n:
                        bl = sh("git blame -s -L %d,%d HEAD -- %s" % (a, a + n - 1, f), cwd=repo).stdout
                        for l in bl.splitlines():
                            h = l.split()[0].lstrip("^")
                            msg = sh("git log -1 --format=%%s %s" % h, cwd=repo).stdout
                            if msg.startswith("fix:"):
                                print("   note: touches a fixed line:", l)
        r = sh("go build ./... && go vet ./base ./string ./object ./extra", cwd=repo, env=ENV)
        if r.returncode:
            return "build: " + r.stderr[:600]
        r = sh("go test -json -vet=off -count=1 ./... ./_examples/csv/... ./_examples/formula/... ./_examples/torpn/...", cwd=repo, env=ENV)
        bad = [json.loads(l) for l in r.stdout.splitlines() if l.startswith("{") and '"Action":"fail"' in l]
        bad = [b.get("Test") for b in bad if b.get("Test")]
        if bad:
            return "existing tests fail: %s" % bad
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.go.txt", "w").write(seed["main"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO.replace("RACE", "-race" if seed.get("race") else ""))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": seed["property"], "needs": seed["needs"], "what_it_breaks": seed["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        g = sh(["bash", d + "/demo.sh"], cwd="/repo", timeout=200)
        b = sh(["bash", d + "/demo.sh"], cwd=repo, timeout=200)
        if g.returncode != 0:
            return "demo fails on the unchanged tree: " + g.stdout[-600:] + g.stderr[-600:]
        if b.returncode == 0:
            return "demo passes with the patch"
        if "./main.go" in b.stderr and "panic" not in b.stderr:
            return "demo does not build: " + b.stderr[-400:]
        c = sh([ROOT + "/bin/analyzer", "-repo", repo, "-verif", tmp, "-check", seed["property"]], timeout=300)
        out = c.stdout.strip().splitlines()
        return ("ok caught: " if c.returncode == 1 else "ok MISSED: ") + (out[0] if out else "")[:230]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

ns = {}
exec(open(sys.argv[1]).read(), ns)
for s in ns["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    r = run(s)
    if not r.startswith("ok"):
        shutil.rmtree(os.path.join(ROOT, "seeded", s["id"]), ignore_errors=True)
    print(s["id"], r, flush=True)
