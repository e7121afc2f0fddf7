#!/usr/bin/env python3
"""mkbug.py DIR.py : creates seeded/<id>/ from a description file and confirms it.
The description defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source) or FILES, KIND ('serial','mpi')."""
import os, subprocess, sys, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export TMPDIR=$tmp OMP_NUM_THREADS=${OMP_NUM_THREADS:-2} OPENBLAS_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_plm_rsh_agent=/bin/false
INC="-I$here -I$repo/include -I$repo/_build/include -I$repo/src/lobpcgxx/include -I$repo/src/sparsexx/include -I$repo/_build/src/sparsexx/include -isystem /usr/include/eigen3"
DEF="-DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB"
'''
LIBS = '-llapackpp -lblaspp -lspdlog -lfmt -llapack -lblas'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(path, recheck=True):
    d = {}
    exec(open(path).read(), d)
    out = os.path.join(V, 'seeded', d['ID'])
    os.makedirs(out, exist_ok=True)
    if sh('git -C /repo status --porcelain').stdout.strip():
        sys.exit('repo not clean')
    try:
        for f, a, b in d['EDITS']:
            p = '/repo/' + f
            s = open(p).read()
            assert s.count(a) >= 1, (f, a)
            n = d.get('NTH', {}).get(a)
            if s.count(a) > 1 and n is None:
                sys.exit(f'{d["ID"]}: {s.count(a)} occurrences of {a!r}')
            if n is None:
                s = s.replace(a, b)
            else:
                parts = s.split(a)
                s = a.join(parts[:n + 1]) + b + a.join(parts[n + 1:])
            open(p, 'w').write(s)
        df = sh('git -C /repo diff').stdout
        open(out + '/patch.diff', 'w').write(df)
    finally:
        sh('git -C /repo checkout -- .')
    json.dump({'property': d['PROP'], 'needs': d['NEEDS'], 'what_it_breaks': d['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
    for n, t in d.get('FILES', {}).items():
        os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
        open(os.path.join(out, n), 'w').write(t)
    open(out + '/demo.cpp', 'w').write(d['DEMO'])
    kind = d.get('KIND', 'serial')
    np = d.get('NP', 3)
    run = {'serial': 'timeout 120 "$tmp/demo"', 'mpi': f'timeout 120 mpirun.openmpi -n {np} "$tmp/demo"'}[kind]
    src = d.get('SRC', '')
    with open(out + '/demo.sh', 'w') as f:
        f.write(HEAD + f'mpicxx.openmpi -std=c++17 -O1 -g -fopenmp $DEF $INC "$here/demo.cpp" {src} -o "$tmp/demo" {LIBS} || exit 99\ncd "$tmp"\n{run}\n')
    os.chmod(out + '/demo.sh', 0o755)
    if recheck:
        verify(d['ID'])


def verify(i):
    out = os.path.join(V, 'seeded', i)
    r0 = sh(f'bash {out}/demo.sh', cwd='/repo')
    a = sh(f'git -C /repo apply {out}/patch.diff')
    if a.returncode:
        print(i, 'does not apply', a.stderr)
        return
    try:
        b = sh('bash /opt/vp/test.sh /tmp/t.json')
        base = json.load(open('/opt/vp/BASELINE.json'))
        t = json.load(open('/tmp/t.json'))
        stable = base if isinstance(base, list) else base.get('stable') or base.get('passed') or base.get('tests')
        bad = [x for x in stable if x not in t['passed']]
        r1 = sh(f'bash {out}/demo.sh', cwd='/repo')
        prop = json.load(open(out + '/meta.json'))['property']
        c = sh(f'python3 run.py {prop}', cwd=V)
    finally:
        sh('git -C /repo checkout -- .')
    caught = f'VIOLATION property={prop}' in c.stdout and c.returncode == 1
    ok = r0.returncode == 0 and r1.returncode not in (0, 99) and not bad
    print(i, 'OK' if ok else 'NOT-VALID', 'CAUGHT' if caught else f'MISSED(rc={c.returncode})', f'clean={r0.returncode} bug={r1.returncode} failing={bad[:3]}')
    if not ok:
        print('   ', (r0.stdout + r0.stderr)[-600:] if r0.returncode else '', (r1.stdout + r1.stderr)[-300:])
    print('\n'.join('    ' + l[:260] for l in c.stdout.splitlines() if '[' in l and 'obligations' not in l)[:900])


if __name__ == '__main__':
    for p in sys.argv[1:]:
        if os.path.isdir(os.path.join(V, 'seeded', p)) and not p.endswith('.py'):
            verify(p)
        else:
            main(p)
    sh('bash /opt/vp/build.sh')
