"""Identity test for normal-form expressions.

Two expressions whose normal forms differ may still denote the same function (a
split range, min() against a conditional, ...).  An expression is read here as a
function of its uninterpreted leaves (parameters, memory cells, results of external
calls); both are evaluated under the same assignments of the leaves, an
uninterpreted leaf being a pseudo-random function of its (evaluated) arguments.
Nothing of the analysed program is executed.
"""
import zlib
import bits
from fractions import Fraction
from poly import P, ATOMS, atom_id

UNK = ('loc', 'new', 'tmp', 'mk', 'phi', 'opq', 'x', 'c', 'trip', 'uninit', 'range', 'ers', 'nt', 'agg', 'std', 'addr', 'u')


BITS = frozenset(bits.TAGS)


class TooBig(Exception):
    pass


class Endless(TooBig):
    """a loop whose exit condition is not reached"""


def mpi_fact(key):
    """('size'|'rank', communicator) for the results of the communicator queries: 0 <= rank < size"""
    if isinstance(key, tuple):
        if key and key[0] == 'val' and len(key) == 2:
            key = key[1]
        for j, x in enumerate(key[:5] if isinstance(key, tuple) else ()):
            if isinstance(x, str) and j + 1 < len(key):
                t = x.split('::')[-1]
                if t in ('MPI_Comm_size', 'get_mpi_size', 'comm_size'):
                    return 'size', repr(key[j + 1])
                if t in ('MPI_Comm_rank', 'get_mpi_rank', 'comm_rank'):
                    return 'rank', repr(key[j + 1])
    return None


SORTED = frozenset()    # arrays searched by bisection: in ascending order
CONSTRUCTING = False     # in a constructor the object itself is not well-formed yet


def pointer_array(b):
    return isinstance(b, tuple) and len(b) == 3 and b[0] == 'fld' and b[2] in ('rowptr_', 'colptr_') and not (CONSTRUCTING and b[1] == ('this',))


def ordered(i):
    a = ATOMS[i]
    return a[0] == 'ld' and (a[1] in SORTED or pointer_array(a[1]))


class World:
    """one assignment of the leaves"""

    def __init__(self, seed, small, strides=(), consts=None, alias=None):
        self.seed = seed
        self.small = small
        self.strides = strides
        self.consts = consts or {}
        self.alias = alias or {}
        self.memo = {}
        self.leafs = {}
        self.env = {}
        self.work = 0
        self.over = {}
        self.points = ()
        self.mono = ()
        self.bitw = {}
        self.lin = ()           # tensors addressed both by multi-index and by position
        self.big = None         # stands for the largest int
        self.dense = seed // 7919 % 3 == 1      # few distinct array contents

    def rnd(self, key):
        return zlib.crc32(repr((self.seed, key)).encode())

    def leaf(self, key, cand=None):
        v = self.over.get(key)
        if v is not None:
            return v
        f = mpi_fact(key)
        if f:
            n = 1 + self.rnd(('size', f[1])) % 4
            return n if f[0] == 'size' else self.rnd(('rank', f[1])) % n
        r = self.rnd(key)
        if cand and r & 1:
            return cand[(r >> 8) % len(cand)]
        hi = self.small
        if self.dense and isinstance(key, tuple) and key and key[0] == 'ld':
            hi = 1
        return (r >> 5) % (hi + 1)

    def bitleaf(self, n, a, p):
        k = self.key(a)
        v = self.over.get(k)
        return int(v) % 2 ** n if v is not None else bits.pattern(self, n, k)

    def prepare(self, eqs):
        """make some of the tested equalities hold, so that both outcomes are explored"""
        for n, (p, eq) in enumerate(eqs):
            r = self.rnd(('tie', n)) % 4
            if (r == 0) if eq else (r != 0):
                continue
            cs = sorted((m for m in p.t if len(m) == 1 and m[0][1] == 1 and abs(p.t[m]) == 1 and free_leaf(m[0][0])), key=lambda m: self.rnd(('pick', m[0][0])))
            for m in cs:
                i = m[0][0]
                k = self.key(ATOMS[i])
                if k in self.over or i in self.strides or mpi_fact(k) or ordered(i):
                    continue
                try:
                    v = -self.p(P({q: c for q, c in p.t.items() if q != m})) / p.t[m]
                except (ZeroDivisionError, TypeError):
                    break
                if v != int(v) or abs(v) > 200 or v < 0 and ATOMS[i][0] in ('size', 'extent'):
                    break
                self.over[k] = int(v)
                self.memo = {}
                break

    # -- expressions
    def p(self, x):
        r = 0
        for m, c in x.t.items():
            v = c
            if self.big and abs(c) == BIG:
                v = self.big if c > 0 else -self.big
            for a, n in m:
                w = self.atom(a)
                if n == 1:
                    v = v * w
                else:
                    v = v * w ** n
                if v == 0:
                    break
            r += v
        if isinstance(r, Fraction) and r.denominator == 1:
            r = int(r)
        return r

    def atom(self, i):
        if i in self.env:
            return self.env[i]
        bound = _loops_of(i)
        key = None
        if not bound:
            key = i
        elif bound <= self.env.keys():
            key = (i,) + tuple(self.env[b] for b in sorted(bound))
        if key is not None:
            r = self.memo.get(key)
            if r is not None:
                return r
        r = self.atom_(i)
        if key is not None:
            self.memo[key] = r
        return r

    def atom_(self, i):
        self.work += 1
        if self.work > 800000:
            raise TooBig()
        a = ATOMS[i]
        t = a[0]
        if t == 'sum':
            return self.sum(a[1], a[2])
        if t == 'ite':
            return self.p(a[2]) if self.c(a[1]) else self.p(a[3])
        if t == 'inv':
            v = self.p(a[1])
            return Fraction(1) / v if v else self.leaf(('inv0',))
        if t == 'abs':
            return abs(self.p(a[1]))
        if t in ('min', 'max'):
            vs = [self.p(x) for x in a[1]]
            return min(vs) if t == 'min' else max(vs)
        if t == 'idiv':
            x, y = self.p(a[1]), self.p(a[2])
            if y and isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y)
                return q if (x < 0) == (y < 0) else -q
            return self.leaf(('idiv', x, y))
        if t == 'mod':
            x, y = self.p(a[1]), self.p(a[2])
            if y and isinstance(x, int) and isinstance(y, int):
                q = abs(x) // abs(y)
                q = q if (x < 0) == (y < 0) else -q
                return x - q * y
            return self.leaf(('mod', x, y))
        if t == 'rec':
            return self.rec(a[1], a[2], self.p(a[3]))
        if t == 'recn':
            return self.rec(a[1], a[2], None, a[3])
        if t == 'red' and isinstance(a[2], tuple):
            l = a[2]
            vs = [self.p(a[4])]
            for v in self.bound(l[0], self.rng(self.p(l[1]), self.p(l[2]))):
                if self.c(l[3]):
                    vs += [self.p(x) for x in a[3]]
            return (max if a[1] == 'max' else min)(vs)
        if t in BITS:
            return bits.value(self, a)
        if t == 'loop':
            return self.leaf(('freeloop',))
        if t in ('red', 'all_of', 'any_of', 'iter', 'lastof', 'first_of', 'count'):
            return self.leaf(self.key(a))
        k = self.alias.get(a)
        if k is not None:
            return self.p(k)
        k = self.key(a)
        if t == 'ld' and a[1] in self.lin and isinstance(k[2], tuple):
            k = ('ld', k[1], self.linear(a[1], k[2]))
        if i in self.strides:
            return 61 + 7 * (self.rnd(('stride', k)) % 9)
        if k in self.leafs and k not in self.over:
            return self.leafs[k]
        r = self.leaf_(a, t, k)
        if not (t == 'ld' and pointer_array(a[1])):     # those follow the index base
            self.leafs[k] = r
        return r

    def linear(self, base, idx):
        """position of a multi-index in a left-layout tensor"""
        off, st = 0, 1
        for d, x in enumerate(idx):
            off += st * x
            st *= self.atom(atom_id(('extent', base, d)))
        return off

    def leaf_(self, a, t, k):
        if t in ('ld', 'par', 'val', 'fld') and self.bitw:
            nb = self.bitw.get(a[1] if t == 'ld' else a)
            if nb and k not in self.over:
                return bits.pattern(self, nb, k)
        inv = t == 'ld' and pointer_array(a[1])
        if t == 'ld' and (inv or a[1] in self.mono) and k not in self.over and isinstance(k[2], int) and abs(k[2]) < 60:
            # pointer array of a compressed format: non-decreasing, from the index base on
            v = self.atom(atom_id(('fld', a[1][1], 'indexing_'))) if inv else self.rnd(('first', k[1])) % 2
            for j in range(0, k[2]) if k[2] > 0 else range(k[2], 0):
                d = self.rnd(('step', k[1], j)) % (self.small + 1)
                v += d if k[2] > 0 else -d
            return v
        return self.leaf(k, self.consts.get(skeleton(a)))

    def bound(self, i, vals):
        old = self.env.get(i)
        for v in vals:
            self.env[i] = v
            yield v
        if old is None:
            self.env.pop(i, None)
        else:
            self.env[i] = old

    def rec(self, vs, j, n, cond=None):
        """iterate a system of recurrences n times, or until cond holds (-> number of iterations)"""
        cur = [self.p(v[1]) for v in vs]
        if n is not None and n > 400:
            raise TooBig()
        ids = [v[0] for v in vs] + [j]
        old = [self.env.get(i) for i in ids]
        r = None
        try:
            k = 0
            while n is None or k < n:
                for i, x in zip(ids, cur):
                    self.env[i] = x
                self.env[j] = k
                if n is None and self.c(cond):
                    r = k
                    break
                if k > 400:
                    raise Endless()
                cur = [self.p(v[2]) for v in vs]
                k += 1
        finally:
            for i, x in zip(ids, old):
                if x is None:
                    self.env.pop(i, None)
                else:
                    self.env[i] = x
        return r if n is None else cur[0]

    def sum(self, loops, body):
        if not loops:
            return self.p(body)
        l = loops[0]
        s = 0
        lo, hi = self.p(l[1]), self.p(l[2])
        old = self.env.get(l[0])
        for v in self.rng(lo, hi):
            self.env[l[0]] = v
            if self.c(l[3]):
                s += self.sum(loops[1:], body)
        if old is None:
            self.env.pop(l[0], None)
        else:
            self.env[l[0]] = old
        return s

    def rng(self, lo, hi):
        if not isinstance(lo, int) or not isinstance(hi, int):
            lo, hi = int(lo), int(hi)
        if hi - lo > 100:
            # the same cells may be visited one by one elsewhere: first try smaller sizes
            if self.small > 2 and hi - lo < 4096:
                raise TooBig()
            return sorted({*range(lo, lo + 3), *range(hi - 2, hi), *(v for v in self.points if lo <= v < hi)})
        return range(lo, hi)

    def key(self, x):
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                t = x[0]
                if t in ('lt', 'lti', 'eq', 'not', 'and', 'or'):
                    return self.c(x)
                if t in ('red', 'all_of', 'any_of', 'iter', 'lastof'):
                    # the bound index is not part of the identity
                    return (t,) + tuple(self.key(y) for y in x[1:] if not isinstance(y, int)) if not isinstance(x[1], tuple) else \
                        (t, tuple(self.key(y) for y in x[1] if not isinstance(y, int))) + tuple(self.key(y) for y in x[2:])
            return tuple(self.key(y) for y in x)
        if isinstance(x, frozenset):
            return tuple(sorted((self.key(y) for y in x), key=repr))
        return x

    # -- conditions
    def c(self, c):
        if c is True or c is False:
            return c
        t = c[0]
        if t in ('lt', 'lti'):
            return self.p(c[1]) < 0
        if t == 'eq':
            return self.p(c[1]) == 0
        if t == 'not':
            return not self.c(c[1])
        if t == 'and':
            return all([self.c(x) for x in c[1]])
        if t == 'or':
            return any([self.c(x) for x in c[1]])
        k = self.key(c)
        v = self.over.get(('cond', k))
        return bool(self.rnd(('cond', k)) & 4) if v is None else v

    def prefer(self, conds):
        for n, (c, pos) in enumerate(conds):
            if self.rnd(('pref', n)) % 4:
                self.over.setdefault(('cond', self.key(c)), pos)


    def satisfy(self, conjs):
        """choose leaves so that the guard of an effect holds and its loops are not empty"""
        for rnd in range(4):
            bad = False
            for n, c in enumerate(conjs):
                try:
                    if not self.c(c):
                        bad = True
                        self.force(c, True, (rnd, n))
                except (ZeroDivisionError, TypeError, TooBig):
                    pass
            if not bad:
                return

    def force(self, c, pos, tag):
        if not isinstance(c, tuple):
            return
        t = c[0]
        if t == 'not':
            return self.force(c[1], not pos, tag)
        if t in ('and', 'or'):
            l = sorted(c[1], key=repr)
            if (t == 'and') == pos:
                for x in l:
                    if self.c(x) != pos:
                        self.force(x, pos, tag)
            else:
                l = [x for x in l if not _conds_loops(x)] or l
                self.force(l[self.rnd(('br', tag, len(l))) % len(l)], pos, tag)
            return
        if t not in ('lt', 'lti', 'eq'):
            if not _conds_loops(c):
                self.over[('cond', self.key(c))] = pos
                self.memo = {}
            return
        p = c[1]
        if t == 'eq':
            want = 0 if pos else 1 + self.rnd(('w', tag)) % 2
        else:
            want = -1 - self.rnd(('w', tag)) % 3 if pos else self.rnd(('w', tag)) % 3
        last = None
        for m in sorted((m for m in p.t if len(m) == 1 and m[0][1] == 1 and abs(p.t[m]) == 1 and free_leaf(m[0][0])), key=lambda m: self.rnd(('pk', tag, m[0][0]))):
            i = m[0][0]
            k = self.key(ATOMS[i])
            if i in self.strides or mpi_fact(k) or ordered(i):
                continue
            v = (want - self.p(P({q: x for q, x in p.t.items() if q != m}))) / p.t[m]
            if v != int(v):
                continue
            if v >= 0:
                self.over[k] = int(v)
                self.memo = {}
                return
            if ATOMS[i][0] not in ('size', 'extent'):
                last = (k, int(v))
        if last:
            self.over[last[0]] = last[1]
            self.memo = {}
            return
        # a product that must be positive: raise its factors
        for m in p.t:
            for a, _ in m:
                if free_leaf(a) and not ordered(a) and a not in self.strides and self.p(P({((a, 1),): Fraction(1)})) == 0:
                    k = self.key(ATOMS[a])
                    if not mpi_fact(k):
                        self.over[k] = 1 + self.rnd(('up', a)) % 2
                        self.memo = {}


def _conds_loops(c):
    s = set()
    _walk(c, s)
    return bool(s)


def monotone(exprs, ranges=()):
    """arrays whose consecutive elements bound loops (pointer arrays of compressed formats)"""
    out, seen = set(SORTED), set()

    def rng(lo, hi):
        d = hi - lo
        for m, c in d.t.items():
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                a = ATOMS[m[0][0]]
                if a[0] == 'ld' and isinstance(a[2], P):
                    x = P.a(('ld', a[1], a[2] - P.c(1)))
                    mm = next(iter(x.t))
                    if d.t.get(mm) == -1:
                        out.add(a[1])

    def walk(x):
        if isinstance(x, P):
            for i in x.atoms():
                if i not in seen:
                    seen.add(i)
                    walk(ATOMS[i])
        elif isinstance(x, tuple):
            if x and x[0] == 'sum':
                for l in x[1]:
                    rng(l[1], l[2])
            for y in x:
                walk(y)
        elif isinstance(x, frozenset):
            for y in x:
                walk(y)
    for e in exprs:
        walk(e)
    for lo, hi in ranges:
        rng(lo, hi)
    return frozenset(out)


def bit_arrays(exprs):
    """memory and parameters that hold bit strings: {array or leaf: width}"""
    out, seen = {}, set()

    def walk(x):
        if isinstance(x, P):
            for i in x.atoms():
                if i not in seen:
                    seen.add(i)
                    walk(ATOMS[i])
        elif isinstance(x, tuple):
            if x and x[0] == 'bits' and isinstance(x[2], P):
                a = x[2].single_atom()
                if a is not None:
                    out[a[1] if a[0] == 'ld' else a] = x[1]
            for y in x:
                walk(y)
        elif isinstance(x, frozenset):
            for y in x:
                walk(y)
    for e in exprs:
        walk(e)
    return out


def guard_of(e, points=()):
    """conditions, free of loop indices, for the entry to have an effect"""
    out = []

    def go(c):
        if isinstance(c, tuple) and c and c[0] == 'and':
            for x in c[1]:
                go(x)
        elif isinstance(c, tuple) and not _conds_loops(c):
            out.append(c)
    go(e.cond)
    far = None
    for l in e.loops:
        c = ('lti', l.lo - l.hi)
        if not _conds_loops(c):
            out.append(c)
            if points and far is None and l.atom in _loops_in(e):
                far = ('lti', l.lo + P.c(max(points)) - l.hi)
    out = sorted(out, key=repr)
    return [out, out + [far]] if far else [out]


def _loops_in(e):
    s = set()
    _walk(e.cond, s)
    _walk(e.val, s)
    for o in e.offs():
        _walk(o, s)
    return s


def loop_points(exprs):
    """values of a loop index at which a remainder or a comparison with a constant changes"""
    out, seen = set(), set()

    def walk(x):
        if isinstance(x, P):
            for i in x.atoms():
                if i not in seen:
                    seen.add(i)
                    walk(ATOMS[i])
        elif isinstance(x, tuple):
            if x and x[0] in ('mod', 'idiv') and isinstance(x[1], P) and isinstance(x[2], P):
                m = x[2].const()
                if m is not None and _loops_any(x[1]) and 3 < m <= 40:
                    out.update((int(m) - 1, int(m), int(m) + 1))
            if x and x[0] in ('lti', 'eq') and isinstance(x[1], P):
                k = x[1].t.get((), 0)
                ls = [a for a in x[1].free() if ATOMS[a][0] == 'loop']
                if len(ls) == 1 and len(x[1].t) == 2 and 3 < abs(k) <= 40:
                    out.update((int(abs(k)) - 1, int(abs(k)), int(abs(k)) + 1))
            for y in x:
                walk(y)
        elif isinstance(x, frozenset):
            for y in x:
                walk(y)
    for e in exprs:
        walk(e)
    return sorted(out)


def _loops_any(p):
    s = set()
    _walk(p, s)
    return bool(s)


_LO = {}
_LP = {}


def _loops_of(i):
    """loop indices an atom depends on (not those bound inside it)"""
    r = _LO.get(i)
    if r is None:
        a = ATOMS[i]
        if a[0] == 'loop':
            r = frozenset((i,))
        else:
            s = set()
            _walk(a, s)
            if a[0] == 'sum':
                s -= {l[0] for l in a[1]}
            elif a[0] == 'red':
                s.discard(a[2][0])
            elif a[0] in ('rec', 'recn'):
                s -= {v[0] for v in a[1]}
                s.discard(a[2])
            elif a[0] in ('all_of', 'any_of') and isinstance(a[1], int):
                s.discard(a[1])
            elif a[0] == 'iter':
                s.discard(a[1][0])
            r = frozenset(s)
        _LO[i] = r
    return r


def _walk(x, s):
    if isinstance(x, P):
        for i in x.atoms():
            s |= _loops_of(i)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _walk(y, s)


def skeleton(a):
    """identity of a leaf, up to the index for an element of an array"""
    return ('ld', a[1]) if a[0] == 'ld' else a


BIG = 2 ** 31 - 1


def big_only(exprs):
    """is the largest int the only large constant, so that a small number may stand for it"""
    seen, found = set(), set()

    def go(x):
        if isinstance(x, P):
            found.update(abs(c) for c in x.t.values() if abs(c) > 10 ** 6)
            for a in x.atoms():
                if a not in seen:
                    seen.add(a)
                    go(ATOMS[a])
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    for e in exprs:
        go(e)
    return found == {BIG}


def addressing(exprs):
    """bases read both at a multi-index and at a position"""
    seen, one, many = set(), set(), set()

    def go(x):
        if isinstance(x, P):
            for a in x.atoms():
                if a not in seen:
                    seen.add(a)
                    t = ATOMS[a]
                    if t[0] == 'ld':
                        (one if isinstance(t[2], P) else many).add(t[1])
                    go(t)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    for e in exprs:
        go(e)
    return one & many


def free_leaf(i):
    return ATOMS[i][0] in ('par', 'val', 'fld', 'ld', 'size', 'call', 'ret', 'out', 'extent') and not _loops_of(i)


def equalities(exprs):
    out = {}
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            if x and x[0] in ('eq', 'lt', 'lti') and isinstance(x[1], P):
                out[x[1]] = out.get(x[1], False) or x[0] == 'eq'
            for y in x:
                walk(y)
        elif isinstance(x, frozenset):
            for y in x:
                walk(y)
        elif isinstance(x, P):
            for a in x.free():
                if a not in seen:
                    seen.add(a)
                    if ATOMS[a][0] in ('ite', 'sum', 'red', 'all_of', 'any_of'):
                        walk(ATOMS[a])
    for e in exprs:
        walk(e)
    return [(p, out[p]) for p in sorted(out, key=lambda p: repr(sorted(p.t.items())))]


def opaque_conds(conds):
    """uninterpreted conditions with the polarity in which they guard something"""
    out = {}

    def go(c, pos):
        if not isinstance(c, tuple) or not c:
            return
        if c[0] == 'not':
            go(c[1], not pos)
        elif c[0] in ('and', 'or'):
            for x in c[1]:
                go(x, pos)
        elif c[0] not in ('lt', 'lti', 'eq'):
            out[(c, pos)] = True
    for c in conds:
        go(c, True)
    return sorted(out, key=repr)


def const_candidates(exprs):
    """values worth trying for a leaf: constants it is compared with"""
    out = {}

    def cond(c):
        if not isinstance(c, tuple) or not c:
            return
        if c[0] in ('lt', 'lti', 'eq') and isinstance(c[1], P):
            p = c[1]
            k = p.t.get((), 0)
            at = [m for m in p.t if m]
            if len(at) == 1 and len(at[0]) == 1 and at[0][0][1] == 1 and k:
                v = -k / p.t[at[0]]
                if v.denominator == 1:
                    out.setdefault(skeleton(ATOMS[at[0][0][0]]), set()).update({int(v)} if c[0] == 'eq' else {int(v), int(v) - 1, int(v) + 1})
            expr(p)
            return
        for y in c:
            if isinstance(y, (tuple, frozenset)):
                for z in (y if isinstance(y, frozenset) else [y]):
                    cond(z)
            elif isinstance(y, P):
                expr(y)
    seen = set()

    def expr(p):
        for a in p.free():
            if a in seen:
                continue
            seen.add(a)
            walk(ATOMS[a])

    def walk(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in ('lt', 'lti', 'eq', 'not', 'and', 'or'):
                cond(x)
                return
            for y in x:
                walk(y)
        elif isinstance(x, frozenset):
            for y in x:
                walk(y)
        elif isinstance(x, P):
            expr(x)
    for e in exprs:
        if isinstance(e, P):
            expr(e)
        elif isinstance(e, (tuple, frozenset)):
            walk(e)
    return {k: sorted(v) for k, v in out.items()}
