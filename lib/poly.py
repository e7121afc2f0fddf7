"""Polynomials with rational coefficients over interned opaque atoms."""
import hashlib
from fractions import Fraction

ATOMS = []
_IX = {}
EACH = {}       # base -> bases of the fields of its elements
LOADS = {}      # base -> atoms that load from it


def atom_id(a):
    i = _IX.get(a)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(a)
        _IX[a] = i
        if a[0] == 'ld':
            b = a[1]
            if b not in LOADS:
                LOADS[b] = set()
                if b[0] == 'fld' and isinstance(b[1], tuple) and b[1][0] == 'each':
                    EACH.setdefault(b[1][1], []).append(b)
            LOADS[b].add(i)
    return i


class P:
    __slots__ = ('t', '_h', '_free')

    def __init__(self, t=None):
        self.t = t or {}
        self._h = None
        self._free = None

    @staticmethod
    def c(v):
        if isinstance(v, float):
            v = Fraction(v).limit_denominator(10**12) if v == v and abs(v) < 1e300 else Fraction(0)
        v = Fraction(v)
        return P({(): v}) if v else P()

    @staticmethod
    def a(atom):
        return P({((atom_id(atom), 1),): Fraction(1)})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = v
            else:
                t.pop(m, None)
        return P(t)

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mono_mul(m, n)
                v = t.get(k, 0) + c * d
                if v:
                    t[k] = v
                else:
                    t.pop(k, None)
        return P(t)

    def const(self):
        """Fraction if constant, else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def is_zero(self):
        return not self.t

    def single_atom(self):
        """atom if the polynomial is exactly one atom."""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                return ATOMS[m[0][0]]
        return None

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def free(self):
        """All atom ids reachable (also inside atoms)."""
        if self._free is None:
            s = set()
            for a in self.atoms():
                s |= atom_free(a)
            self._free = frozenset(s)
        return self._free

    def subst(self, mp):
        """mp: atom id -> P ; deep substitution."""
        if not mp or not (self.free() & mp.keys()):
            return self
        r = P()
        for m, c in self.t.items():
            q = P({(): c})
            for a, p in m:
                v = subst_atom(a, mp)
                for _ in range(p):
                    q = q * v
            r = r + q
        return r

    def __repr__(self):
        return show(self)


def mono_mul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, p in n:
        d[a] = d.get(a, 0) + p
    return tuple(sorted(d.items()))


_FREE = {}


def _nested(x, f):
    if isinstance(x, P):
        f(x)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _nested(y, f)


def atom_free(i):
    r = _FREE.get(i)
    if r is None:
        s = {i}
        _nested(ATOMS[i], lambda p: s.update(p.free()))
        r = frozenset(s)
        _FREE[i] = r
    return r


def map_nested(x, f):
    if isinstance(x, P):
        return f(x)
    if isinstance(x, tuple):
        return tuple(map_nested(y, f) for y in x)
    if isinstance(x, frozenset):
        return frozenset(map_nested(y, f) for y in x)
    return x


REBUILD = {}   # atom tag -> function(tuple) -> P  (re-normalises after substitution)


def subst_atom(i, mp):
    if i in mp:
        return mp[i]
    if not (atom_free(i) & mp.keys()):
        return P({((i, 1),): Fraction(1)})
    a = map_nested(ATOMS[i], lambda p: p.subst(mp))
    f = REBUILD.get(a[0])
    if f:
        return f(a)
    return P.a(a)


def show_atom(a):
    if isinstance(a, P):
        return show(a)
    if isinstance(a, frozenset):
        return '{' + ', '.join(sorted(show_atom(x) for x in a)) + '}'
    if not isinstance(a, tuple):
        return str(a)
    t = a[0] if a else ''
    if t == 'ld':
        off = a[2]
        o = ', '.join(show(x) for x in off) if isinstance(off, tuple) else show(off)
        return f'{show_base(a[1])}[{o}]'
    if t == 'loop':
        return a[1]
    if t in ('par', 'sym'):
        return str(a[1])
    if t == 'fld':
        return show_base(a)
    if t == 'size':
        return f'{show_base(a[1])}.size()'
    if t == 'sum':
        return 'sum{' + ', '.join(f'{ATOMS[l[0]][1]} in [{show(l[1])},{show(l[2])})' + (' if ' + show_cond(l[3]) if l[3] is not True else '') for l in a[1]) + '}(' + show(a[2]) + ')'
    if t == 'ite':
        return f'({show_cond(a[1])} ? {show(a[2])} : {show(a[3])})'
    return f'{t}(' + ', '.join(show_atom(x) for x in a[1:]) + ')'


_SHOWN = {}


def show_ai(i):
    """text of atom i; long texts are abbreviated without losing their identity"""
    r = _SHOWN.get(i)
    if r is None:
        r = show_atom(ATOMS[i])
        if len(r) > 4000:
            r = r[:160] + '...#' + hashlib.md5(r.encode()).hexdigest()[:16]
        _SHOWN[i] = r
    return r


def show_base(b):
    if isinstance(b, tuple):
        if b[0] == 'p':
            return str(b[1])
        if b[0] == 'loc':
            return str(b[2])
        if b[0] == 'fld' and isinstance(b[1], tuple) and b[1][0] == 'each':
            return show_base(b[1][1]) + '[].' + str(b[2])
        if b[0] == 'fld':
            return show_base(b[1]) + '.' + str(b[2])
        if b[0] == 'this':
            return 'this'
        return '.'.join(show_atom(x) if isinstance(x, (tuple, P)) else str(x) for x in b)
    return str(b)


def show_cond(c):
    if c is True or c is False:
        return str(c)
    t = c[0]
    if t == 'lt':
        return f'{show(c[1])} < 0'
    if t == 'eq':
        return f'{show(c[1])} == 0'
    if t == 'not':
        return f'!({show_cond(c[1])})'
    if t in ('and', 'or'):
        return '(' + f' {t} '.join(sorted(show_cond(x) for x in c[1])) + ')'
    return show_atom(c)


def show(p):
    if not isinstance(p, P):
        return show_atom(p)
    if not p.t:
        return '0'
    out = []
    for m, c in sorted(p.t.items(), key=lambda kv: [(show_ai(a), q) for a, q in kv[0]]):
        f = [show_ai(a) + (f'^{q}' if q > 1 else '') for a, q in m]
        if c == 1 and f:
            s = '*'.join(f)
        elif c == -1 and f:
            s = '-' + '*'.join(f)
        else:
            s = '*'.join([str(c if c.denominator == 1 else float(c))] + f)
        out.append(s)
    r = out[0]
    for s in out[1:]:
        r += ' - ' + s[1:] if s.startswith('-') else ' + ' + s
    return r
