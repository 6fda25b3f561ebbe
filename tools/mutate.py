#!/usr/bin/env python3
# Development tool: runs the analyzer on edited copies of /repo.
#   mutate.py FILE.py [label-substring ...]
# FILE.py defines M, a list of (label, expect, units, [(file, old, new), ...])
# with expect 'bug' (some finding wanted) or 'ok' (no finding, no undecided).
import sys, subprocess, os, re, runpy, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
AN = os.environ.get('AN', '/tmp/an')
ms = runpy.run_path(sys.argv[1])['M']
sel = sys.argv[2:]
env = dict(os.environ)
def one(m):
    label, expect, units, edits = m
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        r = d + '/r'
        shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('.git'))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                return label, 'NOTFOUND', old
            open(p, 'w').write(s.replace(old, new, 1))
        v = subprocess.run(['go', 'vet', './base', './string', './object', './extra'], cwd=r, env=env, capture_output=True, text=True)
        if 'vet:' in v.stderr:
            return label, 'NOBUILD', v.stderr[:500]
        if not units:
            units = ''
        args = [AN, '-v', '-repo', r] + (['-units', units] if units else [])
        a = subprocess.run(['bash', '-c', 'ulimit -v 16000000; exec timeout 120 "$@"', 'x'] + args, capture_output=True, text=True)
        o = a.stdout + a.stderr
        nf = sum(int(x) for x in re.findall(r'(\d+) findings', o))
        nu = sum(int(x) for x in re.findall(r'(\d+) undecided', o))
        if a.returncode not in (0, 1) or 'findings' not in o:
            return label, 'CRASH', o[-1500:]
        got = 'bug' if nf else ('undecided' if nu else 'ok')
        det = '\n'.join([l for l in o.splitlines() if re.match(r'\s+(C\d+|undecided|\?)', l, re.I) or 'ndecided:' in l][:4])
        return label, 'pass' if got == expect else 'FAIL(%s, want %s)' % (got, expect), det
    finally:
        shutil.rmtree(d)
ms = [m for m in ms if not sel or any(s in m[0] for s in sel)]
with ThreadPoolExecutor(6) as ex:
    for label, res, det in ex.map(one, ms):
        print('%-40s %s' % (label, res))
        if res != 'pass' or os.environ.get('V'):
            print('\n'.join('      ' + l[:240] for l in det.splitlines()[:8]))
