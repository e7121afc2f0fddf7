#!/usr/bin/env python3
"""Behaviour-preserving edits must stay quiet:  refrun.py [-v] [NAME-or-file-PATTERN]
Each dev/refactors/*.py defines R = [(name, file, [(old, new), ...]), ...].  Edits of disjoint files share one scratch tree."""
import glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pats = [a for a in sys.argv[1:] if a not in ('-v', '-u')]
W = 1500 if '-v' in sys.argv else 330
R = []
for g in sorted(glob.glob(V + '/dev/refactors/*.py')):
    d = {}
    exec(open(g).read(), d)
    R += d['R']
if pats:
    R = [r for r in R if any(re.search(p, r[0]) or re.search(p, r[1]) for p in pats)]
names = [r[0] for r in R]
assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
bad = 0
batches = []
for r in R:
    for b in batches:
        if all(x[1] != r[1] for x in b):
            b.append(r)
            break
    else:
        batches.append([r])


def go(b):
    d = tempfile.mkdtemp(prefix='rf.')
    out = []
    try:
        subprocess.run(f'git -C /repo archive HEAD include src | tar x -C {d}', shell=True, check=True)
        for name, f, ed in b:
            p = f'{d}/{f}'
            s = open(p).read()
            for o, n in ed:
                if s.count(o) < 1:
                    out.append(f'## {name}: text not found: {o[:60]!r}')
                    continue
                s = s.replace(o, n)
            open(p, 'w').write(s)
        r = subprocess.run(['python3', V + '/dev/cmp.py', d] + (['-v'] if '-v' in sys.argv else []), capture_output=True, text=True)
        ls = r.stdout.splitlines()
        if r.returncode:
            out.append('## FAILED ' + ' '.join(x[0] for x in b) + '\n' + (r.stdout + r.stderr)[-1500:])
        for name, f, ed in b:
            mine = [l for l in ls if f'| {f}:' in l or f'| {f} ' in l]
            nd = sum(l.startswith('DIFFER') for l in mine)
            out.append(f'{"ALARM" if nd else "quiet"} {name}: {nd} differ, {len(mine) - nd} undecided')
            seen = set()
            for l in mine:
                k = re.sub(r'<[^|]*>', '', l.split(' | ')[0]) + '|' + re.sub(r'\d+|int|long|unsigned', '', l.split(' | ')[2])
                if k not in seen and (l.startswith('DIFFER') or not nd or '-u' in sys.argv):
                    seen.add(k)
                    out.append('    ' + l[:W])
        rest = [l for l in ls if '|' in l and not any(f'| {x[1]}:' in l or f'| {x[1]} ' in l for x in b)]
        if rest:
            out.append('  elsewhere (batch ' + ' '.join(x[0] for x in b) + '):')
            out += ['    ' + l[:W] for l in rest if l.startswith('DIFFER')][:3]
    finally:
        shutil.rmtree(d)
    return out


with ThreadPoolExecutor(6) as ex:
    for o in ex.map(go, batches):
        print('\n'.join(o), flush=True)
