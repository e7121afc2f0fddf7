#!/usr/bin/env python3
"""which seeded bugs the conformity analysis sees: seedrun.py [-v] [ID...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if a != '-v'] or sorted(os.listdir(V + '/seeded'))


def go(i):
    d = tempfile.mkdtemp(prefix='sr.')
    try:
        subprocess.run(f'git -C /repo archive HEAD include src | tar x -C {d} && cd {d} && git apply --include="include/*" --include="src/*" {V}/seeded/{i}/patch.diff', shell=True, check=True)
        pid = json.load(open(f'{V}/seeded/{i}/meta.json'))['property']
        r = subprocess.run(['python3', V + '/run.py', pid], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_NOEVIDENCE='1'))
        ls = [l for l in r.stdout.splitlines() if '[conformity]' in l or ': [' in l]
        return f'{"caught" if r.returncode == 1 and "VIOLATION property=" + pid in r.stdout else "MISSED"} {i} ({pid})' + ''.join('\n    ' + l[:(1500 if '-v' in sys.argv else 200)] for l in ls[:3]) + (r.stderr[-500:] if r.returncode not in (0, 1) else '')
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(6) as ex:
    for o in ex.map(go, ids):
        print(o, flush=True)
