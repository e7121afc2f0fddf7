"""How two versions of a function differ as syntax trees.

The class of an edit decides how much of its semantic difference may be trusted:
  same   equal up to names of locals, casts and empty statements
  expr   the same statements, some expressions differ
  one    one statement (or one guard) added or removed, nothing else
  move   the same statements in another order
  restr  anything else (the function was restructured)
"""
import difflib

DROP = {'l', 'le', 't', 'pt', 'fk', 'id', 'lam', 'defarg', 'repo', 'arrow', 'clst', 'file', 'q', 'ta', 'inst', 'rt', 'taken', 'cls', 'const', 'caps', 'i', 'fn', 'ibig', 'expl', 'cm'}
STMT = {'block', 'decl', 'for', 'while', 'do', 'rfor', 'if', 'ret', 'break', 'cont', 'switch', 'case', 'default', 'omp', 'try', 'label', 'null_stmt'}
ORDER = ['same', 'expr', 'one', 'move', 'restr']


def is_null(s):
    if s is None or s['k'] == 'null_stmt':
        return True
    while s['k'] == 'cast':
        s = s['e']
    return s['k'] in ('int', 'bool', 'null', 'zero', 'ref') or s['k'] == 'block' and all(is_null(x) for x in s['s'])


class Ctx:
    def __init__(self, ren):
        self.ren = ren
        self.memo = {}

    def ser(self, n):
        if isinstance(n, list):
            return tuple(self.ser(x) for x in n)
        if not isinstance(n, dict):
            return n
        k = id(n)
        r = self.memo.get(k)
        if r is not None:
            return r[1]
        v = self._ser(n)
        self.memo[k] = (n, v)
        return v

    def _ser(self, n):
        k = n.get('k')
        if k == 'cast':
            return self.ser(n['e'])
        if k == 'block':
            ss = stmts(n)
            if len(ss) == 1:
                return self.ser(ss[0])
            return ('block',) + tuple(self.ser(x) for x in ss)
        if k == 'ref' and n.get('dk') in ('param', 'local', 'static', 'binding'):
            return ('ref', self.ren.get(n.get('n'), n.get('n')))
        if k == 'ref':
            return ('ref', n.get('n'))
        if k == 'int' or k == 'bool' or k == 'char':
            return (k, n.get('i'), n.get('ibig'))
        out = [k]
        if k in ('call', 'ctor'):
            out.append((n.get('fn') or '').split('<')[0].split('::')[-1] if k == 'call' else 'lambda' if 'lambda at' in (n.get('cls') or '') else (n.get('cls') or '').split('<')[0])
        for f in sorted(n):
            if f == 'k' or f in DROP:
                continue
            v = n[f]
            if f == 'n' and k is None or f == 'n' and k == 'var':
                v = self.ren.get(v, v)
            if f == 'vars':
                v = tuple(self.var(x) for x in v)
                out.append((f, v))
                continue
            if f == 'var':
                out.append((f, self.var(v)))
                continue
            if f in ('params', 'op') and f == 'params':
                continue
            if f == 'spec':
                v = v[:1]
            out.append((f, self.ser(v)))
        return tuple(out)

    def var(self, v):
        r = [self.ren.get(v.get('n'), v.get('n'))]
        if v.get('init') is not None:
            r.append(self.ser(v['init']))
        if 'bind' in v:
            r.append(tuple(self.ren.get(b.get('n'), b.get('n')) for b in v['bind']))
        return tuple(r)


def stmts(b):
    """statements of a block without the empty ones and without nested plain blocks of one statement"""
    if b is None:
        return []
    if b['k'] != 'block':
        return [] if is_null(b) else [b]
    out = []
    for s in b['s']:
        if is_null(s):
            continue
        out.append(s)
    return out


def locals_of(f):
    out = [p.get('n') for p in f['params']]

    def go(n):
        if isinstance(n, list):
            for x in n:
                go(x)
        elif isinstance(n, dict):
            if n.get('k') == 'decl':
                for v in n['vars']:
                    if 'bind' in v:
                        out.extend(b.get('n') for b in v['bind'])
                    else:
                        out.append(v.get('n'))
            elif n.get('k') == 'rfor':
                v = n['var']
                if 'bind' in v:
                    out.extend(b.get('n') for b in v['bind'])
                else:
                    out.append(v.get('n'))
            elif n.get('k') == 'lambda' and n.get('spec'):
                out.extend(p.get('n') for p in n['spec'][0]['params'])
            for k in n:
                if k == 'spec':
                    go(n[k][:1])
                elif isinstance(n[k], (dict, list)) and k != 'params':
                    go(n[k])
    go(f.get('inits', []))
    go(f.get('body'))
    return out


class Diff:
    def __init__(self, fa, fr):
        self.edits = []
        la, lr = locals_of(fa), locals_of(fr)
        ren = {}
        if len(la) == len(lr) and la != lr:
            for x, y in zip(la, lr):
                if ren.setdefault(x, y) != y:
                    ren = {}
                    break
        self.A = Ctx(ren)
        self.R = Ctx({})
        if len(fa['params']) != len(fr['params']):
            self.edits.append('restr')
        self.node(fa.get('inits', []), fr.get('inits', []))
        self.block(stmts(fa.get('body')), stmts(fr.get('body')))

    def eq(self, a, r):
        return self.A.ser(a) == self.R.ser(r)

    def block(self, a, r):
        sa, sr = [self.A.ser(x) for x in a], [self.R.ser(x) for x in r]
        if sa == sr:
            return
        if len(sa) == len(sr) and sorted(map(repr, sa)) == sorted(map(repr, sr)):
            self.edits.append('move')
            return
        sm = difflib.SequenceMatcher(None, sa, sr, autojunk=False)
        for op, i1, i2, j1, j2 in sm.get_opcodes():
            if op == 'equal':
                continue
            if op == 'insert':                       # in r only
                self.edits += ['del'] * (j2 - j1)
            elif op == 'delete':
                self.edits += ['ins'] * (i2 - i1)
            elif i2 - i1 == j2 - j1:
                for x, y in zip(a[i1:i2], r[j1:j2]):
                    self.stmt(x, y)
            elif i2 - i1 == j2 - j1 + 1 or j2 - j1 == i2 - i1 + 1:
                # a guard around / its removal, or one more statement
                self.unwrap(a[i1:i2], r[j1:j2])
            else:
                self.edits.append('restr')

    def unwrap(self, a, r):
        # flat list comparison: {s1; s2} against if(c){s1; s2}
        for long, short, A, B, tag in ((a, r, self.A, self.R, 'ins'), (r, a, self.R, self.A, 'del')):
            if len(short) == 1 and short[0]['k'] == 'if' and not short[0].get('else'):
                if [A.ser(x) for x in long] == [B.ser(x) for x in stmts(short[0]['then'])]:
                    self.edits.append('guard')
                    return
        self.edits.append('restr')

    def stmt(self, a, r):
        ka, kr = a['k'], r['k']
        if self.eq(a, r):
            return
        for x, y, X, Y in ((a, r, self.A, self.R), (r, a, self.R, self.A)):
            if x['k'] == 'if' and not x.get('else') and X.ser(x['then']) == Y.ser(y):
                self.edits.append('guard')
                return
        if ka != kr:
            if ka not in STMT and kr not in STMT:
                self.node(a, r)
            else:
                self.edits.append('restr')
            return
        if ka == 'block':
            self.block(stmts(a), stmts(r))
        elif ka in ('for', 'while', 'do', 'rfor', 'if', 'switch', 'case', 'default', 'omp', 'try', 'label'):
            for f in set(a) | set(r):
                x, y = a.get(f), r.get(f)
                if f in ('body', 'then', 'else'):
                    self.block(stmts(x), stmts(y))
                elif f in DROP or f == 'k':
                    continue
                elif f == 'vars' or f == 'var':
                    self.node(x, y)
                else:
                    self.node(x, y)
        else:
            for f in sorted(set(a) | set(r)):
                if f == 'vars':
                    self.node(a.get(f), r.get(f))
                elif f not in DROP and f != 'k':
                    self.node(a.get(f), r.get(f))

    def node(self, a, r):
        """expressions (and whatever contains them)"""
        if a is None and r is None:
            return
        if (a is None) != (r is None):
            self.edits.append('expr')
            return
        if isinstance(a, list) and isinstance(r, list):
            if len(a) != len(r):
                self.edits.append('expr')
                return
            for x, y in zip(a, r):
                self.node(x, y)
            return
        if not isinstance(a, dict) or not isinstance(r, dict):
            if a != r:
                self.edits.append('expr')
            return
        while a.get('k') == 'cast' and r.get('k') != 'cast':
            a = a['e']
        while r.get('k') == 'cast' and a.get('k') != 'cast':
            r = r['e']
        if a.get('k') in STMT or r.get('k') in STMT:
            self.stmt(a, r)
            return
        if 'k' in a and 'k' in r and self.eq(a, r):
            return
        if a.get('k') == 'lambda' and r.get('k') == 'lambda':
            if a.get('spec') and r.get('spec'):
                self.block(stmts(a['spec'][0].get('body')), stmts(r['spec'][0].get('body')))
            return
        if a.get('k') != r.get('k') or not any(has_lambda(x) for x in (a, r)):
            if 'k' in a or a.get('init') is not None or r.get('init') is not None:
                if any(has_lambda(x) for x in (a, r)) and not (a.get('init') is not None and r.get('init') is not None):
                    self.edits.append('restr')
                    return
                if 'k' not in a and a.get('init') is not None and r.get('init') is not None:
                    self.node(a['init'], r['init'])
                    return
                self.edits.append('expr')
                return
        for f in set(a) | set(r):
            if f in DROP:
                continue
            if f == 'n' and 'k' not in a:
                continue
            self.node(a.get(f), r.get(f))


_HL = {}


def has_lambda(n):
    if isinstance(n, list):
        return any(has_lambda(x) for x in n)
    if not isinstance(n, dict):
        return False
    return n.get('k') == 'lambda' or any(has_lambda(v) for v in n.values() if isinstance(v, (dict, list)))


_MEMO = {}


def classify(fa, fr):
    """fa, fr: Fn"""
    k = (id(fa), id(fr))
    r = _MEMO.get(k)
    if r is None:
        d = Diff(fa.d, fr.d)
        e = d.edits
        if not e:
            c = 'same'
        elif all(x == 'expr' for x in e):
            c = 'expr'
        elif len(e) == 1 and e[0] in ('ins', 'del', 'guard'):
            c = 'one'
        elif all(x == 'move' for x in e):
            c = 'move'
        else:
            c = 'restr'
        r = _MEMO[k] = (c, fa, fr)
    return r[0]
