#!/usr/bin/env python3
"""Development helper: runs one check on each of a list of changed copies.

usage: blind.py SUITE.py [label...]    (AN = analyzer binary)
SUITE.py defines M, a list of (property, label, [(file, old, new)...]).
"""
import os, runpy, shutil, subprocess, sys, tempfile, concurrent.futures as cf
AN = os.environ.get("AN", "/tmp/an")
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOENV="off", GOFLAGS="-mod=mod")
def one(m):
    prop, label, edits = m
    d = tempfile.mkdtemp(prefix="blind-")
    try:
        r = d + "/r"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                return m, "EDIT " + f + ": " + old[:60], ""
            open(p, "w").write(s.replace(old, new, 1))
        b = subprocess.run("go build ./... && go vet ./base ./string ./object ./extra", shell=True, cwd=r, env=ENV, capture_output=True, text=True)
        if b.returncode:
            return m, "BUILD " + b.stderr[-300:], ""
        t = subprocess.run("go test -vet=off -count=1 ./... ./_examples/csv/... ./_examples/formula/... ./_examples/torpn/...", shell=True, cwd=r, env=ENV, capture_output=True, text=True)
        tests = "" if t.returncode == 0 else " (TESTS FAIL)"
        try:
            a = subprocess.run([AN, "-repo", r, "-verif", d, "-check", prop], capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            return m, "TIMEOUT", ""
        res = {0: "ok", 1: "caught"}.get(a.returncode, "exit %d" % a.returncode)
        if "NO VERDICT" in a.stdout:
            res = "undecided"
        return m, res + tests, "\n".join(l for l in a.stdout.splitlines() if not l.startswith("    path"))[:700]
    finally:
        shutil.rmtree(d, ignore_errors=True)
M = runpy.run_path(sys.argv[1])["M"]
if len(sys.argv) > 2:
    M = [m for m in M if m[1] in sys.argv[2:]]
with cf.ThreadPoolExecutor(6) as ex:
    for m, res, out in ex.map(one, M):
        want = "ok" if m[1].startswith("r-") else "caught"
        flag = "" if res == want else "   <<<<"
        print("%-4s %-34s %s%s" % (m[0], m[1], res, flag), flush=True)
        if flag or len(sys.argv) > 2:
            print("      " + out.replace("\n", "\n      "), flush=True)
