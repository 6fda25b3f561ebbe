#!/usr/bin/env python3
"""Development helper: runs the check of its property on every planted bug and prints the table for DESIGN.md.

usage: seedtable.py [id...]    (AN = analyzer binary)
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AN = os.environ.get("AN", "/tmp/an")
def one(i):
    d = tempfile.mkdtemp(prefix="seedt-")
    try:
        r = d + "/r"
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
        subprocess.run(["git", "apply", "--unsafe-paths", "--directory=" + r, ROOT + "/seeded/" + i + "/patch.diff"], check=True, cwd="/")
        m = json.load(open(ROOT + "/seeded/" + i + "/meta.json"))
        t = time.time()
        try:
            a = subprocess.run([AN, "-repo", r, "-verif", d, "-check", m["property"]], capture_output=True, text=True, timeout=900)
            res = {0: "missed", 1: m["property"]}.get(a.returncode, "exit %d" % a.returncode)
            if "NO VERDICT" in a.stdout and a.returncode == 0:
                res = "no verdict"
        except subprocess.TimeoutExpired:
            res = "timeout"
        return i, m, res, time.time() - t
    finally:
        shutil.rmtree(d, ignore_errors=True)
ids = sys.argv[1:] or sorted(os.listdir(ROOT + "/seeded"))
print("| Planted bug | What it breaks | Reported by |\n|---|---|---|")
with cf.ThreadPoolExecutor(3) as ex:
    for i, m, res, t in ex.map(one, ids):
        print("| %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "\\|"), res), flush=True)
        print(i, "%.0f s" % t, file=sys.stderr, flush=True)
