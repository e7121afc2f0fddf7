#!/usr/bin/env python3
"""Edits that break a cross-cutting rule must be reported: postest.py [PATTERN]
Each dev/positives/*.py defines R = [(name, property, file, [(old, new), ...]), ...]."""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
for g in sorted(glob.glob(V + '/dev/positives/*.py')):
    d = {}
    exec(open(g).read(), d)
    R += d['R']
if sys.argv[1:]:
    R = [r for r in R if any(re.search(p, r[0]) for p in sys.argv[1:])]


def go(r):
    name, pid, f, ed = r
    d = tempfile.mkdtemp(prefix='po.')
    try:
        subprocess.run(f'git -C /repo archive HEAD include src | tar x -C {d}', shell=True, check=True)
        p = f'{d}/{f}'
        s = open(p).read()
        for o, n in ed:
            if s.count(o) < 1:
                return f'## {name}: text not found: {o[:60]!r}'
            s = s.replace(o, n, 1)
        open(p, 'w').write(s)
        q = subprocess.run(['python3', V + '/run.py', pid], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d))
        return f'{"caught" if q.returncode == 1 else "MISSED"} {name}' + ''.join('\n    ' + l[:260] for l in (q.stdout + q.stderr).splitlines() if ': [' in l or 'error' in l)[:900]
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(6) as ex:
    for o in ex.map(go, R):
        print(o, flush=True)
