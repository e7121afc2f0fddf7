"""Comparators handed to sorts, selections and searches are strict weak orders; equality predicates are equivalences.

The comparator (lambda at the call, function object type, or operator<) is summarised symbolically as a
condition over keys of its two arguments.  Keys are compared only through their values, so the laws are
decided over all patterns of key values of three elements.
"""
import itertools, random
import prog, sym
from sym import P as Poly, C, ATOMS, to_c
from rules.omprace import strip

RULE = ('ordering laws: every comparator given to a sort/selection/search is irreflexive, asymmetric, transitive and has transitive '
        'incomparability; every predicate given to unique is reflexive, symmetric and transitive')
LESS = {'sort', 'stable_sort', 'nth_element', 'partial_sort', 'min_element', 'max_element', 'minmax_element', 'is_sorted', 'make_heap', 'push_heap',
        'pop_heap', 'sort_heap', 'set_intersection', 'set_difference', 'set_union', 'merge', 'inplace_merge', 'includes'}
EQUIV = {'unique', 'unique_copy', 'adjacent_find'}


class Und(Exception):
    pass


def toks(x, out):
    if isinstance(x, Poly):
        for i in x.free():
            toks(ATOMS[i], out)
    elif isinstance(x, (tuple, list, frozenset)):
        for y in x:
            toks(y, out)
    elif isinstance(x, str) and x in ('@1', '@2'):
        out.add(x)
    elif hasattr(x, 'key'):
        toks(x.key, out)
    return out


def raw(x, tok):
    if isinstance(x, Poly):
        return tuple(sorted(repr((tuple(sorted(repr((raw(ATOMS[i], tok), e)) for i, e in m)), str(k))) for m, k in x.t.items()))
    if isinstance(x, (tuple, list)):
        return tuple(raw(y, tok) for y in x)
    if isinstance(x, frozenset):
        return tuple(sorted(repr(raw(y, tok)) for y in x))
    if x == tok:
        return '@'
    return x


class Eval:
    def __init__(self, rnd):
        self.rnd = rnd
        self.tab = {}

    def atom(self, i, el):
        a = ATOMS[i]
        ts = toks(a, set())
        if a[0] == 'ite':
            return self.poly(a[2], el) if self.cond(a[1], el) else self.poly(a[3], el)
        if a[0] in ('abs', 'f:abs') and len(a) == 2 and isinstance(a[1], Poly):
            return abs(self.poly(a[1], el))
        if a[0] in ('opq', 'uninit') or '?(' in sym.show(Poly.a(a)):
            raise Und('unresolved value')
        if len(ts) == 2:
            raise Und(f'depends on both elements: {sym.show(Poly.a(a))[:80]}')
        t = next(iter(ts)) if ts else None
        k = repr(raw(a, t))
        return self.tab.setdefault((k, el[t] if t else None), self.rnd.randrange(3))

    def poly(self, p, el):
        if not isinstance(p, Poly):
            raise Und('value')
        s = 0
        for m, k in p.t.items():
            v = k
            for i, e in m:
                v = v * self.atom(i, el) ** e
            s += v
        return s

    def cond(self, c, el):
        if c is True or c is False:
            return c
        k = c[0]
        if k in ('lti', 'lt'):
            return self.poly(c[1], el) < 0
        if k == 'eq':
            return self.poly(c[1], el) == 0
        if k == 'not':
            return not self.cond(c[1], el)
        if k == 'and':
            return all([self.cond(x, el) for x in c[1]])
        if k == 'or':
            return any([self.cond(x, el) for x in c[1]])
        raise Und(k)


def summary(P, f):
    ex = sym.Exec(P)
    ex.run(f, names=['@1', '@2'])
    if any(e.kind in ('st', 'acc', 'loop') for e in ex.eff):
        raise Und('stores or loops')
    v = ex.val(ex.retval)
    c = to_c(v)
    if c is None or hasattr(v, 'why'):
        raise Und('result')
    return c


def laws(c, equiv, n=1500):
    """name of a violated law, or None"""
    rnd = random.Random(7)
    for it in range(n):
        E = Eval(rnd)
        r = {}
        for a, b in itertools.product('xyz', repeat=2):
            r[a, b] = E.cond(c, {'@1': a, '@2': b})
        if equiv:
            if any(not r[a, a] for a in 'xyz'):
                return 'not reflexive'
            if any(r[a, b] != r[b, a] for a in 'xyz' for b in 'xyz'):
                return 'not symmetric'
            if any(r[a, b] and r[b, d] and not r[a, d] for a, b, d in itertools.permutations('xyz')):
                return 'not transitive'
            continue
        if any(r[a, a] for a in 'xyz'):
            return 'not irreflexive: an element is ordered before an equal one'
        if any(r[a, b] and r[b, a] for a in 'xyz' for b in 'xyz'):
            return 'not asymmetric: two elements are each ordered before the other'
        if any(r[a, b] and r[b, d] and not r[a, d] for a, b, d in itertools.permutations('xyz')):
            return 'not transitive'
        eq = {k: not r[k] and not r[k[1], k[0]] for k in r}
        if any(eq[a, b] and eq[b, d] and not eq[a, d] for a, b, d in itertools.permutations('xyz')):
            return 'incomparability is not transitive'
    return None


def run(P, ck):
    ck.rule(RULE)
    todo = []
    for f in sorted(P.fns, key=lambda f: (f.rel, f.l, f.q)):
        if not f.body or '/attic/' in f.rel or '/examples/' in f.rel:
            continue
        last = f.q.split('::')[-1]
        if last in ('operator()', 'operator<', 'operator>') and f.tu.types[f.d['rt']] == 'bool' and len(f.params) == 2 and \
                f.tu.types[f.params[0]['t']] == f.tu.types[f.params[1]['t']]:
            todo.append((f, f, 'comparator' if last != 'operator()' or not eqname(f.q) else 'unique', f'{f.rel}:{f.l} ({f.q})'))
        for n in prog.nodes(f.d, 'call'):
            q = n.get('fn') or ''
            nm = q.split('::')[-1].split('<')[0]
            if not q.startswith('std::') or nm not in LESS | EQUIV or not n.get('args'):
                continue
            l = strip(n['args'][-1])
            l = resolve(f, l)
            if not isinstance(l, dict) or l.get('k') != 'lambda' or not l.get('spec'):
                continue
            sp = dict(l['spec'][0])
            for k in ('cls', 'clst'):
                if k in f.d and k not in sp:
                    sp[k] = f.d[k]
            todo.append((prog.Fn(sp, f.tu), f, nm, f'{f.rel}:{l["l"]} ({f.q})'))
    ck.need(todo, 'no comparators found')
    for g, host, nm, where in todo:
        ck.fn(host)
        ck.count('comparators')
        try:
            c = summary(P, g)
            bad = laws(c, nm in EQUIV)
        except prog.AnalysisError:
            raise
        except Exception as x:
            ck.undecide(f'{where}: {nm}: {type(x).__name__} {str(x)[:120]}')
            continue
        if bad:
            ck.violation(where, 'ordering', f'{"predicate" if nm in EQUIV else "comparator"} for {nm}: {bad}', f'ordering|{host.q}|{nm}|{bad[:20]}')
        else:
            ck.ok(f'{where}: {nm}: laws hold')
    ck.assumptions.append('floating-point keys are not NaN')


def eqname(q):
    return 'equal' in q.lower()


def resolve(f, l):
    """a lambda held in a local variable"""
    if isinstance(l, dict) and l.get('k') in ('ref', 'ctor'):
        if l['k'] == 'ctor' and l.get('args'):
            l = strip(l['args'][0])
        for d in prog.nodes(f.d, 'decl'):
            for v in d['vars']:
                if v.get('id') == l.get('id') and isinstance(v.get('init'), dict):
                    return strip(v['init'])
    return l
