"""Comparison of a function of the analysed tree with the same function of the
confirmed tree (/verif/reference), by the normal form of their effects.

Both are interpreted abstractly with symbolic parameters; the normal forms are
aligned and compared.  Only differences between fully understood expressions
(distinct polynomials over the same kind of quantities, different element written,
different index range, different guard, a different order of dependent effects) are
reported, everything else that does not match is undecided.
"""
import contextlib, difflib, itertools, os, signal, time
from fractions import Fraction
from poly import P, ATOMS, atom_id, atom_free, show, show_base, show_cond, map_nested, REBUILD
import sym, norm, astdiff, prog as prog_
from sym import Loop, Vec, Ptr, Tup, Obj, Opq, C, Str, Span, Lam, ZERO, c_and, c_subst, show_v

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUIET = ('spdlog::', 'fmt::', 'std::chrono', 'std::cout', 'printf', 'std::operator<<')
_REF = []


def reference():
    if not _REF:
        _REF.append(prog_.load(repo=os.path.join(VERIF, 'reference')))
    return _REF[0]


def small(f):
    """inlined in modular mode"""
    if f.d.get('ctor') or f.n.startswith('operator'):
        return True
    b = f.body
    if b is None:
        return True
    if prog_.nodes(b, 'for', 'while', 'do', 'rfor', 'lambda', 'try'):
        return False
    return len(b.get('s', [])) <= 5


def internal(f):
    return '::detail::' in f.q or f.d.get('access') in ('private', 'protected') or '(anonymous' in f.q or f.d.get('static') and f.rel.startswith('src/')


SAME = 'the same object as before'


class Form:
    """normal form of one function"""

    def __init__(self, prog, fn, noinline=(), names=None):
        t0 = time.time()
        ex = sym.Exec(prog, noinline=noinline)
        ex.loopmeta = True
        ex.quiet = QUIET
        ex.run(fn, names=names)
        N = norm.Normalizer(ex)
        N.run(ex.eff)
        self.ex, self.N, self.fn = ex, N, fn
        N.cur_loops = []
        N.cur_cond = True
        self.ret = []
        self.ren = {}
        self.gone = set()           # objects whose contents were handed to something else
        self.collect(ex.retval, ('ret',), 0)
        th = getattr(ex, 'this', None)
        if fn.d.get('ctor') and isinstance(th, Obj):
            for k in sorted(th.fields):
                self.collect(th.fields[k], ('this', k), 0)
        self.dflt = {}
        for i, p in enumerate(fn.params):
            t = fn.tu.types[p['t']].strip()
            if t.endswith('&') and not t.endswith('&&') and not t.startswith('const '):
                self.out(ex.env.get(ex.vk(p['id'])), ('out', f'#{i}'), 0, ('p', (names[i] if names and i < len(names) and names[i] else p['n']) or f'arg{i}'), True)
        if isinstance(th, Obj) and not fn.d.get('ctor'):
            self.out(th, ('out', 'this'), 0, th.key, False)
        self.entries = []          # (base, Entry)
        self.kills = {}
        for b, l in N.defs.items():
            b2 = self.ren.get(b, b)
            if b2 is b and b[0] == 'fld' and isinstance(b[1], tuple) and b[1][0] == 'each' and b[1][1] in self.ren:
                b2 = sym.each(self.ren[b[1][1]], b[2])
            if norm.is_temp(b) and b2 is b and b not in N.used_temps or b in self.gone:
                continue
            self.kills[b2] = N.nkill.get(b, 0)
            for e in l:
                if e.kind == 'kill':
                    continue
                self.entries.append((b2, e))
        self.dt = time.time() - t0

    def epochs(self, rn):
        """how often an unfollowed call may have changed each object"""
        if getattr(self, '_ep', (0,))[0] is not rn:
            self._ep = (rn, {rn.go(b): n for b, n in self.kills.items()})
        return self._ep[1]

    def out(self, v, path, d, key, scalars):
        """what the caller can see afterwards in an object it passed: value or number of elements"""
        if d > 3 or v is None:
            return
        if isinstance(v, sym.Alias):
            v = self.ex.val(v)
        if isinstance(v, (P, C)) and scalars and d == 0:
            dv = P.a(('par', key[1]))
            v = sym.to_p(v)
            if v is not None and sym.bits.unleaf(v) == dv:
                v = dv
            if v is not None and v != dv:
                self.ret.append((path, self.N.resolve(v)))
                self.dflt[path] = dv
        elif isinstance(v, sym.Opq) and v.alts:
            self.ret.append((path, v))
        elif isinstance(v, Vec):
            if v.base != key:
                # swapped with another object
                if norm.is_temp(v.base) and v.base not in self.ren:
                    self.ren[v.base] = key
                    self.gone.add(key)
                else:
                    self.ret.append((path + ('is',), Str(show_base(v.base))))
                    self.dflt[path + ('is',)] = Str(SAME)
            sz = self.ex.size_of(v)
            dv = P.a(('size', key))
            if sz is not None and sz != dv:
                self.ret.append((path + ('size',), self.N.resolve(sz)))
                self.dflt[path + ('size',)] = dv
        elif isinstance(v, Obj) and v.key == key:
            for k in sorted(v.fields):
                self.out(v.fields[k], path + (k,), d + 1, ('fld', v.key, k), False)
        elif isinstance(v, (Obj, Ptr)) and d:
            b = v.key if isinstance(v, Obj) else v.base
            if b != key and b != ('deref', key):
                # the member now refers to another object
                self.ret.append((path + ('is',), Str(show_base(b))))
            self.dflt[path + ('is',)] = Str(SAME)

    def choice(self, v):
        """a choice between objects as an expression over their identities"""
        if isinstance(v, sym.Alias):
            v = self.ex.val(v)
        if isinstance(v, P):
            return v
        if isinstance(v, Ptr):
            return P.a(('argptr', v.base, v.off)) if isinstance(v.off, P) else None
        if isinstance(v, Obj):
            return P.a(('argobj', v.key))
        if isinstance(v, sym.Opq) and v.alts:
            a, b = self.choice(v.alts[1]), self.choice(v.alts[2])
            return sym.mk_ite(v.alts[0], a, b) if a is not None and b is not None else None
        return None

    def collect(self, v, path, d):
        if d > 4 or v is None:
            return
        N = self.N
        if isinstance(v, sym.Alias):
            v = self.ex.val(v)
        if isinstance(v, sym.Opq) and v.alts:
            x = self.choice(v)
            v = x if x is not None else v
        if isinstance(v, (P, C)):
            self.ret.append((path, N.resolve(v)))
        elif isinstance(v, Tup):
            for i, x in enumerate(v.v):
                self.collect(x, path + (str(i),), d + 1)
        elif isinstance(v, Vec):
            if norm.is_temp(v.base):
                self.ren[v.base] = ('res',) + path
            sz = self.ex.size_of(v)
            if sz is not None:
                self.ret.append((path + ('size',), N.resolve(sz)))
        elif isinstance(v, Obj):
            for k in sorted(v.fields):
                self.collect(v.fields[k], path + (k,), d + 1)
        elif isinstance(v, Ptr):
            if norm.is_temp(v.base):
                self.ren[v.base] = ('res',) + path
            elif isinstance(v.off, P):
                self.ret.append((path + ('ptr',), N.resolve(v.off)))
        else:
            self.ret.append((path, v))




# ------------------------------------------------------------------ unknowns
UNK = {'loc', 'new', 'tmp', 'mk', 'phi', 'opq', 'x', 'c', 'trip', 'uninit', 'range', 'ers', 'nt', 'agg', 'std', 'addr', '?'}


def is_unknown(x):
    """tuples that carry an arbitrary serial number"""
    if not (isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in UNK):
        return False
    t = x[0]
    if t in ('x', 'c', 'range', 'trip', 'std', 'nt', 'agg', '?'):
        return len(x) >= 2 and isinstance(x[1], int)
    if t == 'addr':
        return isinstance(x[1], str) and not x[1].startswith("('var', ('g',")
    if t == 'ers':
        return len(x) == 3 and isinstance(x[2], int)
    return any(isinstance(y, int) for y in x[1:])


def ident(x):
    """identity of an unknown without the parts that are expressions"""
    return tuple(y for y in x if isinstance(y, (int, str)))


class Walker:
    def __init__(self):
        self.order = []
        self.seen = set()
        self.done = set()

    def go(self, x):
        if isinstance(x, P):
            for m in sorted(x.t, key=lambda m: shape_m(m)):
                for a, _ in m:
                    if a not in self.done:
                        self.done.add(a)
                        self.go(ATOMS[a])
        elif isinstance(x, tuple):
            if is_unknown(x):
                k = ident(x)
                if k not in self.seen:
                    self.seen.add(k)
                    self.order.append((k, x[0]))
            for y in x:
                if isinstance(y, (P, tuple, frozenset)):
                    self.go(y)
        elif isinstance(x, frozenset):
            for y in sorted(x, key=shape):
                self.go(y)
        elif isinstance(x, C):
            self.go(x.c)
        elif isinstance(x, Ptr):
            self.go(x.base)
            self.go(x.off)
        elif isinstance(x, Vec):
            self.go(x.base)
            if x.size is not None:
                self.go(x.size)
        elif isinstance(x, (Tup,)):
            for y in x.v:
                self.go(y)
        elif isinstance(x, Obj):
            self.go(x.key)
        elif isinstance(x, Span):
            self.go(x.ptr)


_SH = {}


def shape_atom(i):
    r = _SH.get(i)
    if r is None:
        _SH[i] = '..'
        r = _SH[i] = shape(ATOMS[i])
    return r


def shape_m(m):
    return '*'.join(sorted(shape_atom(a) + str(n) for a, n in m))


def shape(x):
    """text of an expression with every serial number and bound index erased"""
    if isinstance(x, P):
        return '+'.join(sorted(f'{c}{shape_m(m)}' for m, c in x.t.items()))
    if isinstance(x, tuple):
        if is_unknown(x):
            return x[0]
        if x and x[0] == 'loop':
            return 'i'
        return '(' + ','.join(shape(y) for y in x if not isinstance(y, int) or isinstance(y, bool)) + ')'
    if isinstance(x, frozenset):
        return '{' + ','.join(sorted(shape(y) for y in x)) + '}'
    if isinstance(x, C):
        return shape(x.c)
    if isinstance(x, Ptr):
        return '&' + shape(x.base) + shape(x.off)
    if isinstance(x, Vec):
        return 'v' + shape(x.base)
    if isinstance(x, Obj):
        return 'o' + shape(x.key)
    if isinstance(x, Tup):
        return '<' + ','.join(shape(y) for y in x.v) + '>'
    if isinstance(x, Str):
        return repr(x.s)
    return str(x) if not isinstance(x, (Opq, Lam, Span)) else type(x).__name__


def names_of(F):
    """ordered unknowns of a form with a fingerprint each"""
    w = Walker()
    defs = {}
    for b, e in sorted(F.entries, key=lambda t: t[1].seq):
        for l in e.loops:
            w.go(l.lo)
            w.go(l.hi)
        w.go(e.cond)
        w.go(e.off)
        w.go(e.val)
        w.go(b)
        if is_unknown(b):
            defs.setdefault(ident(b), []).append(f'{e.kind}{shape(e.off)}={shape(e.val)}?{shape(e.cond)}')
    for path, v in F.ret:
        w.go(v)
    out = {}
    for k, cat in w.order:
        fp = (cat,) + tuple(y for y in k[1:] if isinstance(y, str) and cat not in ('loc', 'phi', 'addr', 'new')) + tuple(defs.get(k, ()))
        out.setdefault(cat, []).append((k, fp))
    return out


def align_names(A, R):
    """actual unknown -> reference unknown"""
    na, nr = names_of(A), names_of(R)
    mp = {}
    for cat in na:
        a, r = na[cat], nr.get(cat, [])
        sm = difflib.SequenceMatcher(None, [x[1] for x in r], [x[1] for x in a], autojunk=False)
        for op, i1, i2, j1, j2 in sm.get_opcodes():
            if op == 'equal' or op == 'replace' and i2 - i1 == j2 - j1:
                for i, j in zip(range(i1, i2), range(j1, j2)):
                    mp[a[j][0]] = r[i][0]
            elif op == 'replace':
                rr = {x[0][1:]: x[0] for x in r[i1:i2]}
                nm = {}
                for x in r[i1:i2]:
                    nm.setdefault(tuple(y for y in x[0] if isinstance(y, str)), []).append(x[0])
                for x in a[j1:j2]:
                    c = nm.get(tuple(y for y in x[0] if isinstance(y, str)), [])
                    if len(c) == 1:
                        mp[x[0]] = c.pop()
    return mp


class Renamer:
    """rewrites serial numbers according to a table; unknown ones become ('u', ...)"""

    def __init__(self, mp, fields=None):
        self.mp = mp
        self.memo = {}
        self.fields = fields or {}

    def go(self, x):
        if isinstance(x, P):
            return self.p(x)
        if isinstance(x, tuple):
            if is_unknown(x):
                k = ident(x)
                n = self.mp.get(k)
                if n is None:
                    n = ('u',) + k
                rest = tuple(self.go(y) for y in x if not isinstance(y, (int, str)))
                return n + rest
            if len(x) == 3 and x[0] == 'fld' and (x[2] in self.fields):
                return ('fld', self.go(x[1]), self.fields[x[2]])
            return tuple(self.go(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(self.go(y) for y in x)
        if isinstance(x, C):
            return C(self.cond(x.c))
        if isinstance(x, Ptr):
            return Ptr(self.go(x.base), self.go(x.off), None)
        if isinstance(x, Vec):
            return Vec(self.go(x.base), self.go(x.size) if x.size is not None else None, x.et)
        if isinstance(x, Tup):
            return Tup([self.go(y) for y in x.v])
        return x

    def cond(self, c):
        if c is True or c is False:
            return c
        t = c[0]
        if t == 'lti':
            return sym.mk_lti(self.p(c[1]))
        if t == 'lt':
            return sym.mk_lt(self.p(c[1]))
        if t == 'eq':
            return sym.mk_eq(self.p(c[1]))
        if t == 'not':
            return sym.c_not(self.cond(c[1]))
        if t == 'and':
            return sym.c_and(*[self.cond(x) for x in c[1]])
        if t == 'or':
            return sym.c_or(*[self.cond(x) for x in c[1]])
        return self.go(c)

    def p(self, x):
        if not x.t:
            return x
        r = P()
        for m, c in x.t.items():
            q = P({(): c})
            for a, n in m:
                v = self.atom(a)
                for _ in range(n):
                    q = q * v
            r = r + q
        return r

    def atom(self, i):
        r = self.memo.get(i)
        if r is None:
            a = ATOMS[i]
            if a[0] == 'ite':
                r = sym.mk_ite(self.cond(a[1]), self.p(a[2]), self.p(a[3]))
            else:
                b = self.go(a)
                r = P.a(b) if b != a else P({((i, 1),): Fraction(1)})
            self.memo[i] = r
        return r

    def entry(self, e):
        n = norm.Entry(e.kind, e.base, tuple(self.go(o) for o in e.off) if isinstance(e.off, tuple) else self.go(e.off), self.go(e.val), self.cond(e.cond),
                       [], e.fn, e.line)
        for l in e.loops:
            k = Loop(l.atom, self.go(l.lo), self.go(l.hi), True, l.line, l.kind)
            k.partial = l.partial
            n.loops.append(k)
        n.exact, n.epoch, n.seq, n.w, n.ordered = e.exact, e.epoch, e.seq, e.w, e.ordered
        return n


_UM = {}


def unmatched(x):
    """mentions an unknown that has no counterpart"""
    if isinstance(x, P):
        return any(_uma(a) for a in x.free())
    return _um(x)


def _uma(a):
    r = _UM.get(a)
    if r is None:
        r = _UM[a] = _um(ATOMS[a])
    return r


def _um(x):
    if isinstance(x, tuple):
        if x and x[0] == 'u':
            return True
        return any(unmatched(y) for y in x if isinstance(y, (tuple, P, frozenset, C, Ptr)))
    if isinstance(x, frozenset):
        return any(unmatched(y) for y in x)
    if isinstance(x, C):
        return unmatched(x.c)
    if isinstance(x, Ptr):
        return unmatched(x.base) or unmatched(x.off)
    return False


# ------------------------------------------------------------------ comparison
import semeq

NTRIAL = 24


class Overlap(Exception):
    pass


class Unsup(Exception):
    pass


def strides_of(entries):
    s = set()
    bounds = set()
    for e in entries:
        own = {l.atom for l in e.loops}
        for l in e.loops:
            bounds |= (l.hi - l.lo).atoms()
        if e.kind == 'call':
            continue
        for o in e.offs():
            for m in o.t:
                if any(a in own for a, _ in m):
                    s |= {a for a, _ in m if a not in own and ATOMS[a][0] in ('par', 'val', 'fld', 'extent')}
    return frozenset(s - bounds)


def keyval(w, v):
    if isinstance(v, P):
        return w.p(v)
    if isinstance(v, C):
        return int(bool(w.c(v.c)))
    if isinstance(v, Ptr):
        return ('ptr', w.key(v.base), w.key(v.off))
    if isinstance(v, Vec):
        return ('vec', w.key(v.base))
    if isinstance(v, Obj):
        return ('obj', w.key(v.key))
    if isinstance(v, Str):
        return ('str', v.s)
    if isinstance(v, Tup):
        return tuple(keyval(w, x) for x in v.v)
    if v is None:
        return None
    if isinstance(v, Lam):
        return ('lam',)
    raise Unsup()


def evaluate(w, base, entries, watch=(), snap=False):
    """final contents of `base` (and the calls made) under the assignment w; with `snap`
    also the contents at each point where an unfollowed call gets to see them"""
    mem, log, reads = {}, [], {}
    epoch = 0
    active = [False]
    watch = set(map(id, watch))

    def cell(k):
        return w.leaf(('ld', w.key(base), k if len(k) > 1 else k[0]))
    def picture():
        log.append(('seen', epoch, frozenset((k, v) for k, v in mem.items() if v != 0 and v != cell(k))))
    for e in entries:
        mine = {}
        if snap and e.epoch != epoch:
            if mem:
                picture()
            epoch = e.epoch

        def body():
            if not w.c(e.cond):
                return
            k = tuple(w.p(o) for o in e.offs())
            if id(e) in watch:
                active[0] = True
            if e.kind == 'call':
                # calls that only read commute with each other
                if e.ordered or e.base[1].startswith('MPI_'):
                    log.append(k)
                else:
                    reads[k] = reads.get(k, 0) + 1
                return
            v = keyval(w, e.val)
            if e.kind == 'acc':
                old = mem.get(k)
                if old is None:
                    old = cell(k)
                mem[k] = old + v
            else:
                if k in mine and mine[k] != v:
                    raise Overlap()
                mine[k] = v
                mem[k] = v
            if len(mem) > 6000:
                raise semeq.TooBig()

        def nest(i):
            if i == len(e.loops):
                body()
                return
            l = e.loops[i]
            for x in w.rng(w.p(l.lo), w.p(l.hi)):
                w.env[l.atom] = x
                nest(i + 1)
            w.env.pop(l.atom, None)
        nest(0)
    out = {k: v for k, v in mem.items() if v != cell(k)}
    return (out, log, reads), active[0]


def alias_table(exprs):
    """class invariants of the sparse formats: equal lengths"""
    out = {}
    seen = set()

    def go(x):
        if isinstance(x, P):
            for a in x.free():
                if a in seen:
                    continue
                seen.add(a)
                t = ATOMS[a]
                if t[0] == 'ld' and semeq.pointer_array(t[1]):
                    # the last pointer is the base plus the number of entries
                    o = t[1][1]
                    out[('fld', o, 'nnz_')] = P.a(('ld', t[1], P.a(('fld', o, 'm_' if t[1][2] == 'rowptr_' else 'n_')))) - P.a(('fld', o, 'indexing_'))
                if t[0] == 'size' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'fld':
                    f = t[1][2]
                    if f in ('colind_', 'rowind_', 'nzval_'):
                        out[t] = P.a(('fld', t[1][1], 'nnz_'))
                    elif f == 'rowptr_':
                        out[t] = P.a(('fld', t[1][1], 'm_')) + P.c(1)
                    elif f == 'colptr_':
                        out[t] = P.a(('fld', t[1][1], 'n_')) + P.c(1)
                go(t)
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
        elif isinstance(x, C):
            go(x.c)
    for e in exprs:
        go(e)
    return out


def exprs_of(entries):
    out = []
    for e in entries:
        out += list(e.offs())
        out.append(e.cond)
        if isinstance(e.val, P):
            out.append(e.val)
        elif isinstance(e.val, C):
            out.append(e.val.c)
        for l in e.loops:
            out += [l.lo, l.hi]
    return out


def worlds(exprs, strides, conds=(), n=NTRIAL, guards=(), points=(), nothrow=(), ranges=()):
    mono = semeq.monotone(exprs, ranges)
    bw = semeq.bit_arrays(exprs)
    cc = semeq.const_candidates(exprs)
    al = alias_table(exprs)
    eqs = semeq.equalities(exprs)
    ops = semeq.opaque_conds(conds)
    lin = semeq.addressing(exprs)
    big = semeq.big_only(exprs)

    def mk(k, small):
        w = semeq.World(k * 7919 + 13, small, strides, cc, al)
        w.mono = mono
        w.bitw = bw
        w.lin = lin
        if big:
            w.big = 2 + k % 2
        if ops and k % 4 != 3:
            w.prefer(ops if k % 2 else ops[::-1])
        if eqs and k % 3 != 2:
            w.prepare(eqs if k % 2 else eqs[::-1])
        w.points = points
        if guards and k % 5 != 4:
            w.satisfy(guards[(k // 5) % len(guards)] + list(nothrow))
        elif nothrow:
            w.satisfy(list(nothrow))
        if nothrow and not all(w.c(c) for c in nothrow):
            raise Unsup()
        return w
    for k in range(n):
        yield k, (lambda small, k=k: mk(k, small))


# class invariants between members: a container never outgrows the limit it was given
CAPACITY = [('macis::DIIS<', 'diis_pairs_', 'ndiis_max_')]
DESCENDING = {'macis::make_triplet': 'ijk', 'macis::make_quad': 'ijkl'}


# arguments the callers (and an assertion in the function) promise to be equally long
SAME_LENGTH = {'macis::reorder_ci_on_coeff': [('C', 'dets')]}


def preconditions(form):
    """what every caller guarantees about the arguments: the orbitals of a constraint are distinct, largest first"""
    p = [P.a(('par', x)) for x in DESCENDING.get(form.fn.q, '')]
    out = [sym.mk_lti(y - x) for x, y in zip(p, p[1:])]
    for x, y in SAME_LENGTH.get(form.fn.q, ()):
        out.append(sym.mk_eq(P.a(('size', ('p', x))) - P.a(('size', ('p', y)))))
    for cls, small, large in CAPACITY:
        if cls in form.fn.q:
            out.append(sym.mk_lti(P.a(('size', ('fld', ('this',), small))) - P.a(('fld', ('this',), large)) - P.c(1)))
    return out


def throws(R):
    """conditions (free of loop indices) under which the function does not throw"""
    out = []
    for b, l in R.items():
        if b[0] == 'call' and b[1] == 'throw':
            for e in l:
                if e.cond is not True and not e.loops and not semeq._conds_loops(e.cond):
                    out.append(sym.c_not(e.cond))
    return out


def same_base(base, A, R, da, dr, nothrow=(), snap=False):
    """-> (trials differing, trials in which one of the differing entries has an effect)"""
    ex = exprs_of(A) + exprs_of(R)
    strides = strides_of(R + A)
    diff = n = 0
    t0 = time.time()
    pts = semeq.loop_points(exprs_of(da + dr))
    for k, mk in worlds(ex, strides, [e.cond for e in da + dr], 160, [g for e in da + dr for g in semeq.guard_of(e, pts) if g], pts, nothrow if base[:2] != ('call', 'throw') else (), [(l.lo, l.hi) for e in A + R for l in e.loops]):
        for small in ((1, 2, 3, 5)[k % 4], 2):
            try:
                w = mk(small)
                try:
                    x, p = evaluate(w, base, A, da, snap)
                except semeq.Endless:
                    x, p = None, True
                y, q = evaluate(w if x is not None else mk(small), base, R, dr, snap)
                d = x != y
                n += d or p or q or not (da or dr) and bool(x[0])
                diff += d
                break
            except semeq.TooBig:
                continue
            except (Overlap, Unsup, ZeroDivisionError, OverflowError, TypeError):
                break
        if n >= NTRIAL and diff != 1 or k >= 40 and time.time() - t0 > 6:
            break
    return diff, n


def same_value(x, y, nothrow=()):
    ex = [v.c if isinstance(v, C) else v for v in (x, y)]
    diff = n = 0
    t0 = time.time()
    for k, mk in worlds(ex + list(nothrow), frozenset(), n=3 * NTRIAL, nothrow=nothrow):
        if k >= NTRIAL and (diff >= 2 or time.time() - t0 > 3):
            break
        for small in ((1, 2, 3, 5)[k % 4], 2):
            try:
                w = mk(small)
                try:
                    a = keyval(w, x)
                except semeq.Endless:
                    a = None
                b = keyval(w if a is not None else mk(small), y)
                n += 1
                diff += a != b
                break
            except semeq.TooBig:
                continue
            except (Unsup, ZeroDivisionError, OverflowError, TypeError):
                break
    return diff, n


def fast_equal(A, R):
    if len(A) != len(R):
        return False
    for a, r in zip(A, R):
        if a.kind != r.kind or len(a.loops) != len(r.loops):
            return False
        ca, cr = norm.canon_entry(a), norm.canon_entry(r)
        if not ca or not cr or not any(eqc(x, cr[0]) for x in ca):
            return False
    return True


def eqc(x, y):
    if x[0] != y[0] or x[1] != y[1] or x[2] != y[2]:
        return False
    if isinstance(x[3], P):
        return x[3] == y[3]
    return sym.same(x[3], y[3]) or type(x[3]) is type(y[3]) and shape(x[3]) == shape(y[3])


def find_diff(A, R):
    """the entries that have no equal counterpart"""
    ra = list(R)
    out = []
    for a in A:
        ca = norm.canon_entry(a)
        for r in ra:
            if r.kind == a.kind and len(r.loops) == len(a.loops) and ca:
                cr = norm.canon_entry(r)
                if cr and any(eqc(x, cr[0]) for x in ca):
                    ra.remove(r)
                    break
        else:
            out.append(a)
    return out, ra


SKIPCALL = ('std::', 'operator', '__')


def significant(name):
    return not (name.startswith('std::') or name.startswith('__gnu') or name in ('None',))


def pin(e):
    """comparable identity of an entry, or None"""
    c = norm.canon_entry(e)
    if not c:
        return None
    off, bounds, cond, val = min(c, key=repr)
    return (e.kind, e.base if e.kind != 'call' else e.base[1], repr(off), repr(bounds), repr(cond), repr(val) if isinstance(val, P) else shape(val))


def touched(e):
    """[(base, start offset, written)] of an entry"""
    out = []
    if e.kind == 'call':
        for o, w in itertools.zip_longest(e.offs(), e.w):
            if isinstance(o, P) and len(o.t) == 1:
                m, c = next(iter(o.t.items()))
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    a = ATOMS[m[0][0]]
                    if a[0] == 'argptr' and isinstance(a[1], tuple) and a[1][0] not in ('addr', 'gaddr'):
                        out.append((a[1], a[2], bool(w)))
    elif isinstance(e.off, P):
        try:
            out.append((e.base, e.off.subst({l.atom: l.lo for l in e.loops[::-1]}), True))
        except Exception:
            pass
    return out


def ordered_pairs(entries):
    """{(pin1, pin2)} of dependent effects (first before second), at least one of them a call"""
    l = [(e, pin(e), touched(e)) for e in entries]
    cnt = {}
    for e, p, t in l:
        cnt[p] = cnt.get(p, 0) + 1
    l = [(e, p, t) for e, p, t in l if p is not None and cnt[p] == 1 and t]
    l.sort(key=lambda x: x[0].seq)
    by = {}
    for i, (e, p, t) in enumerate(l):
        for b, o, w in t:
            by.setdefault((b, repr(norm.canon(o)) if not o.free() & {x.atom for x in e.loops} else repr(o)), []).append((i, w))
    out = {}
    for v in by.values():
        for (i, w), (j, x) in itertools.combinations(v, 2):
            a, b = l[i], l[j]
            if i != j and (w or x) and 'call' in (a[0].kind, b[0].kind) and c_and(a[0].cond, b[0].cond) is not False:
                out[(a[1], b[1])] = (a[0], b[0])
    return out


def order_diff(A, R):
    fa, fr = ordered_pairs(A), ordered_pairs(R)
    return [(fa[(y, x)], p) for (x, y), p in fr.items() if (y, x) in fa]


# ------------------------------------------------------------------ trust
WEAK = {'opq', 'brkval', 'opqc', 'iter', 'lastidx', 'lastof', 'last', 'brk', 'phi', 'trip', 'x', 'loopexit', 'exc', 'loopret', 'uninit', '?', 'out', 'lam', 'range',
        'ptreq', 'u', 'zeroinit', 'objcmp'}
_WM = {}


def weak(x, out):
    """kinds of quantities in x that the interpreter does not resolve"""
    if isinstance(x, P):
        for a in x.atoms():
            r = _WM.get(a)
            if r is None:
                _WM[a] = frozenset()
                s = set()
                weak(ATOMS[a], s)
                r = _WM[a] = frozenset(s)
            out |= r
    elif isinstance(x, tuple):
        if x and isinstance(x[0], str):
            if x[0] in WEAK:
                if x[0] != 'out' or str(x[3:4] and x[3]).startswith('std::'):
                    out.add(x[0])
            elif x[0] == 'ret' and len(x) > 1 and isinstance(x[1], str) and (x[1].startswith('std::') or x[1].startswith('__')):
                out.add('ret ' + x[1].split('<')[0])
            elif x[0] == 'call' and len(x) > 1 and isinstance(x[1], str) and (x[1].startswith('std::') or x[1].startswith('__')) and not sym.is_pure(x[1]):
                out.add('call ' + x[1].split('<')[0])
            elif x[0] == 'v' and len(x) > 2 and isinstance(x[2], str) and x[2].startswith('?'):
                out.add('?v')
            elif x[0] == 'v' and len(x) > 2 and isinstance(x[2], str) and x[2].startswith('c'):
                out.add('carried')
        for y in x:
            if isinstance(y, (P, tuple, frozenset)):
                weak(y, out)
    elif isinstance(x, frozenset):
        for y in x:
            weak(y, out)
    elif isinstance(x, C):
        weak(x.c, out)
    elif isinstance(x, Ptr):
        weak(x.base, out)
        weak(x.off, out)
    elif isinstance(x, Vec):
        weak(x.base, out)
        if x.size is not None:
            weak(x.size, out)
    elif isinstance(x, Obj):
        weak(x.key, out)
    elif isinstance(x, Tup):
        for y in x.v:
            weak(y, out)
    elif isinstance(x, (Opq, Lam)):
        if getattr(x, 'why', '') != 'void':
            out.add('opq')
    return out


def weak_entries(l):
    out = set()
    for e in l:
        weak(e.base, out)
        for o in e.offs():
            weak(o, out)
        weak(e.cond, out)
        weak(e.val, out)
        for k in e.loops:
            weak(k.lo, out)
            weak(k.hi, out)
            if k.partial:
                out.add('partial')
            if k.kind == 'while':
                out.add('trip')
        if e.loops and own_size(e):
            out.add('own size')
    return out


def own_size(e):
    """a write in a loop to a container that depends on how the iterations before left its size"""
    b = e.base[1] if isinstance(e.base, tuple) and e.base and e.base[0] == 'szof' else e.base
    for a in sym.c_free(e.cond):
        t = ATOMS[a]
        if t[0] == 'size' and (t[1] == b or repr(t[1]) == repr(b)):
            return True
    return False


class Result:
    def __init__(self):
        self.items = []     # (status, base, where, msg)
        self.weak = {}      # name of a differing item -> unresolved kinds on the analysed side / on either side
        self.refweak = set()
        self.fa = self.fr = None

    def add(self, st, base, where, msg):
        self.items.append((st, base, where, msg))

    def of(self, st):
        return [x for x in self.items if x[0] == st]


def inexact(e):
    return not e.exact and not any(l.partial for l in e.loops)


def unsure(entries):
    """cells whose value at the point of use is not known exactly"""
    s = set()
    for x in exprs_of(entries):
        for a in (x.free() if isinstance(x, P) else sym.c_free(x)):
            t = ATOMS[a]
            if t[0] == 'ld' and isinstance(t[1], tuple) and t[1][0] == 'v' and t[1][2].startswith('?'):
                s.add(a)
    return {shape(ATOMS[a]) for a in s}


def field_map(prog, ref):
    return {}


def nested_in(b, s):
    return b in s or isinstance(b, tuple) and any(nested_in(x, s) for x in b if isinstance(x, tuple))


def compare(fa, fr):
    """two Forms -> Result"""
    res = Result()
    res.fa, res.fr = fa, fr
    semeq.CONSTRUCTING = bool(fr.fn.d.get('ctor'))
    mp = align_names(fa, fr)
    rn = Renamer(mp)
    ri = Renamer({k[0]: k[0] for c in names_of(fr).values() for k in c})
    semeq.SORTED = frozenset(ri.go(b) for b in fr.ex.sorted)
    A, R = {}, {}
    for b, e in sorted(fa.entries, key=lambda t: t[1].seq):
        A.setdefault(rn.go(b), []).append(rn.entry(e))
    for b, e in sorted(fr.entries, key=lambda t: t[1].seq):
        R.setdefault(ri.go(b), []).append(ri.entry(e))
    w0 = f'{fa.fn.loc} ({fa.fn.q})'
    for l in R.values():
        res.refweak |= weak_entries(l)
    for _, v in fr.ret:
        weak(v, res.refweak)
    nothrow = throws(R) + preconditions(fa)
    newcalls = [b for b in A if b[0] == 'call' and b not in R]
    extra = [b for b in A if b not in R]
    tainted = set()
    for x, y in ((A, R), (R, A)):
        for b in x:
            if b[0] == 'call' and b not in y and b[1] not in ('throw', 'loop-exit', 'return'):
                for e in x[b]:
                    for p in exprs_of([e]):
                        if isinstance(p, P):
                            tainted |= {ATOMS[i][1] for i in p.atoms() if ATOMS[i][0] in ('argptr', 'argobj')}
    for b in list(R) + extra:
        nm = show_base(b)
        la, lr = A.get(b, []), R.get(b, [])
        if fast_equal(la, lr):
            res.add('ok', nm, w0, '')
            continue
        da, dr = find_diff(la, lr)
        w = (da[0].where if da and da[0].fn else w0)
        msg = f'{nm}: ' + ' | '.join(x.show()[:700] for x in da[:3]) + '   -- confirmed behaviour: ' + ' | '.join(x.show()[:700] for x in dr[:3])
        if tainted and b[0] != 'call' and nested_in(b, tainted):
            res.add('undecided', nm, w, 'changed by a call that is not followed: ' + msg)
            continue
        if isinstance(b, tuple) and b and (b[0] == 'u' or b[0] in UNK and not (la and lr)) or any(unmatched(t) for e in la for t in exprs_of([e])):
            res.add('undecided', nm, w, 'unmatched: ' + msg)
            continue
        if isinstance(b, tuple) and b[0] == 'call':
            # a call that is gone, or a new one: only when nothing replaces it
            if not la and newcalls or not lr:
                res.add('undecided', nm, w, 'other calls: ' + msg)
                continue
        gone = not da and not extra
        inex = not gone and (unsure(la) != unsure(lr) or sum(inexact(e) for e in la) != sum(inexact(e) for e in lr))
        diff, n = same_base(b, la, lr, da, dr, nothrow, fa.epochs(rn).get(b, 0) == fr.epochs(ri).get(b, 0))
        if diff == 0 and n >= 3:
            res.add('ok', nm, w, 'equal by identity test')
        elif diff < 2:
            res.add('undecided', nm, w, f'no verdict ({diff}/{n}): ' + msg)
        else:
            res.add('inexact' if inex else 'differ', nm, w, f'({diff}/{n}) ' + msg)
            wa, wr = weak_entries(da), weak_entries(dr)
            k = res.weak.setdefault(nm, (set(), set()))
            k[0].update(wa)
            k[1].update(wa | wr)
    od = order_diff([e for l in A.values() for e in l], [e for l in R.values() for e in l])
    for (a, b), _ in od[:4]:
        res.add('differ', f'order of {show_base(a.base)} and {show_base(b.base)}', a.where,
                f'dependent effects exchanged: {a.show()[:300]}  now precedes  {b.show()[:300]}')
        res.weak[res.items[-1][1]] = (weak_entries([a, b]),) * 2
    # results
    ra = {p: rn.go(v) for p, v in fa.ret}
    rr = {p: ri.go(v) for p, v in fr.ret}
    for k in list(rr) + [k for k in ra if k not in rr]:
        nm = '.'.join(map(str, k))
        x, y = ra.get(k), rr.get(k)
        if k[-1] == 'is' and (x is None) != (y is None):
            x, y = x or Str(SAME), y or Str(SAME)
        if x is None and k in fr.dflt:
            x = ri.go(fr.dflt[k])
        if y is None and k in fa.dflt:
            y = rn.go(fa.dflt[k])
        if x is None or y is None:
            res.add('undecided', nm, w0, 'result not comparable')
            continue
        if isinstance(x, C) and isinstance(y, C) and norm.canon_c(x.c) == norm.canon_c(y.c) or isinstance(x, P) and isinstance(y, P) and norm.canon(x) == norm.canon(y):
            res.add('ok', nm, w0, '')
            continue
        if not isinstance(x, (P, C)) or not isinstance(y, (P, C)):
            if isinstance(x, Str) and isinstance(y, Str):
                left = SAME in (x.s, y.s) and not (extra or tainted or fa.ex.opaque)
                res.add('ok' if x.s == y.s else 'differ' if left else 'undecided', nm, w0, f'{nm} now refers to {x.s}  -- confirmed behaviour: {y.s}')
                continue
            res.add('ok' if shape(x) == shape(y) else 'undecided', nm, w0, f'{show_v(x)} / {show_v(y)}')
            continue
        if unmatched(x):
            res.add('undecided', nm, w0, 'unmatched')
            continue
        diff, n = same_value(x, y, nothrow)
        if diff == 0 and n:
            res.add('ok', nm, w0, 'equal by identity test')
        elif diff < 2:
            res.add('undecided', nm, w0, f'no verdict ({diff}/{n})')
        else:
            res.add('differ', nm, w0, f'({diff}/{n}) {nm} is {show_v(x)[:700]}  -- confirmed behaviour: {show_v(y)[:700]}')
            wa = weak(x, set())
            res.weak[nm] = (wa, weak(y, set(wa)))
    return res


FN_BUDGET, TOTAL_BUDGET = 60, 480     # seconds of processor time: per function, per run


class OutOfTime(BaseException):
    pass


@contextlib.contextmanager
def limit(sec):
    def go(*_):
        raise OutOfTime
    old = signal.signal(signal.SIGPROF, go)
    signal.setitimer(signal.ITIMER_PROF, sec)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


class Session:
    """comparison of a whole program with the confirmed one"""

    def __init__(self, prog, ref=None):
        self.P = prog
        self.R = ref or reference()
        self.byname = {}
        for f in self.R.fns:
            self.byname.setdefault((f.q, len(f.params), str(f)), []).append(f)
        self.bynameA = {}
        for f in prog.fns:
            self.bynameA.setdefault((f.q, len(f.params), str(f)), []).append(f)
        # a function that is new or whose signature changed is followed from its callers
        self.bnd = {f.fk or f.q for f in prog.fns if f.body and not small(f)} & {f.fk or f.q for f in self.R.fns if f.body and not small(f)}
        self.forms = {}
        self.memo = {}
        self.spent = 0.0

    def counterpart(self, f):
        if f.fk:
            return self.R.by_fk.get(f.fk)
        c = self.byname.get((f.q, len(f.params), str(f)), [])
        return c[0] if len(c) == 1 else None

    def form(self, side, f, full):
        k = (side, id(f), full)
        if k not in self.forms:
            self.forms[k] = Form(self.P if side == 'a' else self.R, f, noinline=() if full else self.bnd - {f.fk or f.q})
        return self.forms[k]

    def result(self, f, full=False):
        k = (id(f), full)
        if k not in self.memo:
            r = self.counterpart(f)
            try:
                with limit(min(FN_BUDGET, max(2, TOTAL_BUDGET - self.spent))):
                    t0 = time.process_time()
                    try:
                        self.memo[k] = compare(self.form('a', f, full), self.form('r', r, full))
                    finally:
                        self.spent += time.process_time() - t0
            except (RecursionError, OutOfTime) as e:
                res = Result()
                res.add('undecided', 'all', f.loc, 'too deep' if isinstance(e, RecursionError) else 'not settled within the time budget')
                self.memo[k] = res
            except Exception as e:      # a construct the interpreter was not built for
                if os.environ.get('VERIF_STRICT'):
                    raise
                res = Result()
                res.add('undecided', 'all', f.loc, f'not understood: {type(e).__name__} {e}'[:200])
                self.memo[k] = res
        return self.memo[k]

    def callers(self):
        if not hasattr(self, '_callers'):
            out = {}
            for f in self.P.fns:
                if not f.body:
                    continue
                for n in prog_.nodes(f.d, 'call', 'ctor'):
                    fk = n.get('fk')
                    if fk:
                        out.setdefault(fk, set()).add(f)
            self._callers = out
        return self._callers

    def public_callers(self, f):
        seen, out, st = {f}, [], [f]
        while st:
            x = st.pop()
            for c in self.callers().get(x.fk, ()):
                if c not in seen:
                    seen.add(c)
                    if internal(c):
                        st.append(c)
                    else:
                        out.append(c)
        return out

    # -- how far the difference found may be trusted ---------------------
    def edit(self, f, full):
        """class of the edit over f and everything followed from it"""
        k = ('edit', id(f), full)
        if k in self.memo:
            return self.memo[k]
        stop = set() if full else self.bnd - {f.fk or f.q}
        worst, seen, st = 'same', set(), [f]
        while st:
            g = st.pop()
            if g in seen:
                continue
            seen.add(g)
            r = self.counterpart(g)
            c = 'restr' if r is None or not r.body else astdiff.classify(g, r)
            if astdiff.ORDER.index(c) > astdiff.ORDER.index(worst):
                worst = c
            for n in prog_.nodes(g.d, 'call', 'ctor'):
                fk = n.get('fk')
                h = self.P.by_fk.get(fk) if fk else None
                if h is not None and h.body and (h.fk or h.q) not in stop:
                    st.append(h)
        self.memo[k] = worst
        return worst

    def trusted(self, f, full):
        """items of the comparison with untrustworthy differences demoted"""
        r = self.result(f, full)
        if not r.of('differ') and not r.of('inexact'):
            return r.items
        c = self.edit(f, full)
        strict = c in ('move', 'restr') or any(x[3].startswith('changed by a call that is not followed') for x in r.items)
        out = []
        oa = {why for _, why in r.fa.ex.opaque} if r.fa else set()
        orr = {why for _, why in r.fr.ex.opaque} if r.fr else set()
        for it in r.items:
            if it[0] == 'inexact' and not strict and not r.of('undecided'):
                it = ('differ',) + it[1:]
            if it[0] == 'differ':
                wa, wb = r.weak.get(it[1], (set(), set()))
                why = None
                if strict:
                    if wb:
                        why = 'restructured, with unresolved ' + ','.join(sorted(wb))
                    elif oa - orr:
                        why = 'restructured, not understood: ' + ','.join(sorted(oa - orr))
                    elif any(x[0] in ('undecided', 'inexact') for x in r.items):
                        why = 'restructured, other parts undecided'
                elif c == 'one' and 'own size' in wb:
                    why = 'a guard on what earlier iterations left'
                elif wa - r.refweak:
                    why = 'unresolved ' + ','.join(sorted(wa - r.refweak))
                if why:
                    it = ('undecided', it[1], it[2], f'[{c}] {why}: ' + it[3])
            out.append(it)
        return out

    def verdict(self, f):
        """items of f, with differences that disappear when the calls are followed removed"""
        k = ('v', id(f))
        if k in self.memo:
            return self.memo[k]
        items = self.trusted(f, False)
        if any(x[0] == 'differ' for x in items):
            drop = None
            full = self.result(f, True)
            if full.items and all(x[0] == 'ok' for x in full.items):
                drop = 'ok'
            elif self.edit(f, False) in ('move', 'restr') and not any(x[0] == 'differ' for x in self.trusted(f, True)):
                drop = 'undecided'
            elif internal(f):
                cs = self.public_callers(f)
                if cs and all(self.counterpart(c) is not None and self.counterpart(c).body and all(x[0] == 'ok' for x in self.result(c, True).items) for c in cs):
                    drop = 'ok'
                elif cs and not any(self.unchanged(c) for c in self.callers().get(f.fk, ())):
                    # the contract between a helper and its only users may move
                    if not any(x[0] == 'differ' for c in cs if self.counterpart(c) is not None and self.counterpart(c).body for x in self.trusted(c, True)):
                        drop = 'undecided'
            if drop:
                items = [x if x[0] != 'differ' else (drop,) + x[1:] for x in items]
        self.memo[k] = items
        return items

    def unchanged(self, f):
        r = self.counterpart(f)
        return r is not None and r.body is not None and astdiff.classify(f, r) == 'same'
