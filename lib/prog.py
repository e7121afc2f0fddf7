"""Load the typed AST of the repository (produced by tool/astdump)."""
import hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TOOL = os.path.join(VERIF, 'build', 'astdump')


class AnalysisError(Exception):
    """The analysis itself could not be carried out (not a violation)."""


def flags(repo=None):
    v = VERIF
    r = repo or REPO
    return ('-std=c++17 -fopenmp -DNDEBUG -DFMT_SHARED -DSPDLOG_COMPILED_LIB '
            '-DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB '
            f'-I{v}/cfg -I{v}/stubs -I{r}/include -I{r}/src/lobpcgxx/include '
            f'-I{r}/src/sparsexx/include -I{r}/src/macis '
            '-isystem /usr/lib/x86_64-linux-gnu/openmpi/include '
            f'-isystem /usr/include/eigen3 -include {v}/stubs/prelude.hpp '
            '-Wno-everything').split()


def units(repo=None):
    repo = repo or REPO
    d = os.path.join(VERIF, 'drivers')
    out = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]
    sd = os.path.join(VERIF, 'specs')
    if repo == REPO:
        out += [os.path.join(sd, f) for f in sorted(os.listdir(sd)) if f.endswith('.cpp')]
    s = os.path.join(repo, 'src', 'macis')
    out += [os.path.join(s, f) for f in sorted(os.listdir(s)) if f.endswith('.cxx')]
    return out


def _source_hash(REPO):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'include'), os.path.join(REPO, 'src'),
             os.path.join(VERIF, 'drivers'), os.path.join(VERIF, 'stubs'),
             os.path.join(VERIF, 'cfg'), os.path.join(VERIF, 'tool'), os.path.join(VERIF, 'specs')]
    for r in roots:
        for dp, dn, fn in os.walk(r):
            dn.sort()
            for f in sorted(fn):
                p = os.path.join(dp, f)
                if os.path.isfile(p):
                    h.update(p.encode() + b'\0')
                    h.update(open(p, 'rb').read())
    h.update(' '.join(flags(REPO)).encode())
    return h.hexdigest()[:24]


class Fn:
    __slots__ = ('d', 'tu', 'file', 'rel', 'q', 'n', 'l', 'fk', 'params', 'body')

    def __init__(self, d, tu):
        self.d = d
        self.tu = tu
        self.file = tu.files[d['file']]
        self.rel = os.path.relpath(self.file, tu.root)
        self.q = d['q']
        self.n = d['n']
        self.l = d['l']
        self.fk = d.get('fk')
        self.params = d['params']
        self.body = d.get('body')

    @property
    def loc(self):
        return f'{self.rel}:{self.l}'

    def __repr__(self):
        ta = self.d.get('ta')
        return self.q + ('<' + ','.join(str(x) for x in ta) + '>' if ta else '')


ENUMS = {}         # enumeration type -> {enumerator: number}


def add_enum(d):
    """the enumerators, numbered by name: the order they are declared in does not matter"""
    vs = [c['v'] for c in d['c']]
    if sorted(vs) == list(range(len(vs))):
        m = {n: i for i, n in enumerate(sorted(c['n'] for c in d['c']))}
    else:
        m = {c['n']: c['v'] for c in d['c']}
    ENUMS[d['q']] = m


class TU:
    def __init__(self, path, js, root=None):
        self.root = root or REPO
        self.path = path
        self.types = js['types']
        self.files = js['files']
        self.js = js
        self.fns = [Fn(d, self) for d in js['fns']]
        self.by_fk = {}
        for f in self.fns:
            if f.fk:
                self.by_fk.setdefault(f.fk, f)
        self.recs = js['recs']
        self.globals = js['globals']
        for d in js.get('enums', ()):
            add_enum(d)
        self.lams = {}
        for f in self.fns:
            f_ = f
            def vis(n, f_=f_):
                if n.get('k') == 'lambda':
                    self.lams[n['lam']] = (n, f_)
            walk(f.d, vis)

    def ty(self, n):
        t = n.get('t', -1) if isinstance(n, dict) else n
        return self.types[t] if t is not None and t >= 0 else ''


def walk(n, vis):
    """Visit every dict node below n (pre-order)."""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                vis(x)
            vals = list(x.values())
            vals.reverse()
            for v in vals:
                if isinstance(v, (dict, list)):
                    st.append(v)
        elif isinstance(x, list):
            for v in reversed(x):
                if isinstance(v, (dict, list)):
                    st.append(v)


def nodes(n, *kinds):
    out = []
    ks = set(kinds)
    walk(n, lambda x: out.append(x) if (not ks or x['k'] in ks) else None)
    return out


class Program:
    def __init__(self, tus):
        self.tus = tus
        self.by_fk = {}
        self.fns = []
        self.spec = {}
        seen = set()
        for t in tus:
            for f in t.fns:
                key = f.fk or (f.file, f.l, f.q)
                if f.q.startswith('spec::') and f.body:
                    self.spec.setdefault(f.q[6:], [])
                    if not any(x.fk == f.fk for x in self.spec[f.q[6:]]):
                        self.spec[f.q[6:]].append(f)
                        if f.fk:
                            self.by_fk.setdefault(f.fk, f)
                    continue
                if f.rel.startswith('..'):
                    continue
                if f.fk and f.fk in self.by_fk:
                    continue
                if f.fk:
                    self.by_fk[f.fk] = f
                if key in seen:
                    continue
                seen.add(key)
                self.fns.append(f)

    def find(self, q, pred=None):
        return [f for f in self.fns if f.q == q and (pred is None or pred(f))]

    def need(self, q, pred=None):
        r = self.find(q, pred)
        if not r:
            raise AnalysisError(f'anchor {q} not found')
        return r

    def patterns(self):
        """Function templates / members of class templates (by location)."""
        out = {}
        for t in self.tus:
            for p in t.js['pats']:
                f = t.files[p['file']]
                out[(os.path.relpath(f, t.root), p['l'])] = p['q']
        return out

    def instantiated(self):
        return {(f.rel, f.l) for f in self.fns}


def build_tool():
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(
            os.path.join(VERIF, 'tool', 'astdump.cpp')):
        return
    r = subprocess.run(['sh', os.path.join(VERIF, 'setup.sh')], capture_output=True, text=True)
    if not os.path.exists(TOOL):
        raise AnalysisError('cannot build astdump: ' + r.stderr[-2000:])


def _dump(u, out, repo):
    x = ['-fno-access-control', f'-I{VERIF}/specs'] if '/specs/' in u else []
    r = subprocess.run([TOOL, repo + (f':{VERIF}/specs' if '/specs/' in u else ''), out, u, '--'] + flags(repo) + x, capture_output=True, text=True)
    return r.returncode, r.stderr


def load(only=None, keep_going=False, repo=None):
    build_tool()
    repo = repo or REPO
    key = _source_hash(repo)
    cdir = os.path.join(VERIF, 'build', 'cache', key)
    us = units(repo)
    if only:
        us = [u for u in us if os.path.basename(u) in only]
    os.makedirs(cdir, exist_ok=True)
    jobs = []
    for u in us:
        out = os.path.join(cdir, os.path.basename(u) + '.json')
        if not os.path.exists(out):
            jobs.append((u, out))
    errs = []
    def go(j):
        tmp = j[1] + f'.{os.getpid()}.tmp'
        rc, err = _dump(j[0], tmp, repo)
        if os.path.exists(tmp) and (rc == 0 or rc == 3):
            os.replace(tmp, j[1])
            if rc:
                open(j[1] + '.err', 'w').write(err)
        else:
            if os.path.exists(tmp):
                os.unlink(tmp)
            errs.append((j[0], err))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, jobs))
    # keep the cache small: drop other keys
    base = os.path.join(VERIF, 'build', 'cache')
    ents = sorted((os.path.getmtime(os.path.join(base, e)), e) for e in os.listdir(base))
    for _, e in ents[:-14]:
        if e != key:
            shutil.rmtree(os.path.join(base, e), ignore_errors=True)
    if errs and not keep_going:
        raise AnalysisError('does not type-check: ' + '; '.join(
            f'{os.path.relpath(u, repo)}: ' + ' | '.join([l for l in e.splitlines() if 'error' in l][:3]) for u, e in errs))
    tus = []
    perr = []
    for u in us:
        out = os.path.join(cdir, os.path.basename(u) + '.json')
        if os.path.exists(out):
            tus.append(TU(u, json.load(open(out)), repo))
            if os.path.exists(out + '.err'):
                perr += [l for l in open(out + '.err').read().splitlines() if 'error:' in l]
    P = Program(tus)
    P.errors = perr
    if perr:
        # clang recovers: whatever still type-checks is analysed, the rest is undecided
        print('note: parse errors (analysis continues on what type-checks): ' + ' | '.join(perr[:5]), file=sys.stderr)
    if len(P.fns) < 200:
        raise AnalysisError(f'only {len(P.fns)} function definitions could be read from {repo}: ' + ' | '.join(perr[:5]))
    return P
