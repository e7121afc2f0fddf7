#!/usr/bin/env python3
"""The absolute rules on behaviour-preserving edits:  rulerun.py [PROPERTY...]  (default C31..C38, C09)"""
import glob, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or ['C09'] + [f'C{i}' for i in range(31, 43)]
R = []
for g in sorted(glob.glob(V + '/dev/refactors/*.py')):
    d = {}
    exec(open(g).read(), d)
    R += d['R']
batches = []
for r in R:
    for b in batches:
        if all(x[1] != r[1] for x in b):
            b.append(r)
            break
    else:
        batches.append([r])


def go(b):
    d = tempfile.mkdtemp(prefix='rr.')
    out = []
    try:
        subprocess.run(f'git -C /repo archive HEAD include src tests | tar x -C {d}', shell=True, check=True)
        for name, f, ed in b:
            s = open(f'{d}/{f}').read()
            for o, n in ed:
                s = s.replace(o, n)
            open(f'{d}/{f}', 'w').write(s)
        r = subprocess.run(['python3', V + '/run.py'] + ids, capture_output=True, text=True, cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1'))
        if r.returncode:
            out.append(f'ALARM exit {r.returncode}: {" ".join(x[0] for x in b)}\n' + '\n'.join(x[:400] for x in (r.stdout + r.stderr).splitlines()[-12:]))
    finally:
        shutil.rmtree(d)
    return out or [f'quiet: {len(b)} edits']


with ThreadPoolExecutor(6) as ex:
    for o in ex.map(go, batches):
        print('\n'.join(o), flush=True)
