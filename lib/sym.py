"""Abstract interpreter over the typed AST.

Every function is evaluated once, with symbolic parameters.  Loops are not
unrolled: a counted loop introduces one bound index, its body is evaluated
once, scalar reductions become `sum` terms and induction variables their
closed form.  The result is the list of *effects* of the function: guarded,
loop-quantified stores / accumulations / library calls / throws, with index and
value expressions in polynomial normal form.  Anything outside this fragment
becomes an opaque term and is reported as such (never guessed).
Calls to functions defined in the repository are inlined.
"""
from fractions import Fraction
import re
import bits
import prog
from poly import P, ATOMS, LOADS, EACH, atom_id, atom_free, subst_atom, REBUILD, map_nested, show, show_base, show_cond, mono_mul

INTT = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'long long',
        'unsigned long long', 'char', 'unsigned char', 'signed char', 'bool', '__int128', 'unsigned __int128'}


def strip_t(t):
    t = t.strip()
    while True:
        o = t
        if t.endswith('&'):
            t = t.rstrip('&').strip()
        if t.startswith('const '):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        if t == o:
            return t


def is_int(t):
    return strip_t(t) in INTT


# ---------------------------------------------------------------- conditions
def c_not(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    if c[0] == 'lti':
        return mk_lti(-c[1] - P.c(1))
    if c[0] == 'and':
        return c_or(*[c_not(x) for x in c[1]])
    if c[0] == 'or':
        return c_and(*[c_not(x) for x in c[1]])
    return ('not', c)


def c_and(*cs):
    s = set()
    for c in cs:
        if c is False:
            return False
        if c is True:
            continue
        if c[0] == 'and':
            s |= c[1]
        else:
            s.add(c)
    for c in list(s):
        if c_not(c) in s:
            return False
    if not s:
        return True
    if len(s) == 1:
        return next(iter(s))
    return ('and', frozenset(s))


def c_or(*cs):
    s = set()
    for c in cs:
        if c is True:
            return True
        if c is False:
            continue
        if c[0] == 'or':
            s |= c[1]
        else:
            s.add(c)
    for c in list(s):
        if c_not(c) in s:
            return True
    if not s:
        return False
    if len(s) == 1:
        return next(iter(s))
    return ('or', frozenset(s))


def mk_lti(p):
    k = p.const()
    if k is not None:
        return k < 0
    return ('lti', p)


def mk_lt(p):
    k = p.const()
    if k is not None:
        return k < 0
    return ('lt', p)


def mk_eq(p):
    k = p.const()
    if k is not None:
        return k == 0
    # canonical sign
    m = min(p.t)
    if p.t[m] < 0:
        p = -p
    if TWO and len(p.t) == 2 and p.t.get((), 0) in (-1, 1):
        (mono,) = [x for x in p.t if x]
        if len(mono) == 1 and mono[0][0] in TWO and mono[0][1] == 1 and p.t[mono] == -p.t[()]:
            # one of two enumerators: not the other one
            return ('not', ('eq', P({mono: Fraction(1)})))
    return ('eq', p)


TWO = set()         # atoms with values 0 and 1


def enum_value(t, p):
    m = prog.ENUMS.get(strip_t(t).removeprefix('enum '))
    if m is not None and sorted(m.values()) == [0, 1]:
        TWO.update(p.atoms())
    return p


def c_subst(c, mp):
    if c is True or c is False:
        return c
    t = c[0]
    if t == 'lti':
        return mk_lti(c[1].subst(mp))
    if t == 'lt':
        return mk_lt(c[1].subst(mp))
    if t == 'eq':
        return mk_eq(c[1].subst(mp))
    if t == 'not':
        return c_not(c_subst(c[1], mp))
    if t == 'and':
        return c_and(*[c_subst(x, mp) for x in c[1]])
    if t == 'or':
        return c_or(*[c_subst(x, mp) for x in c[1]])
    return map_nested(c, lambda p: p.subst(mp))


def c_free(c):
    s = set()

    def go(x):
        if isinstance(x, P):
            s.update(x.free())
        elif isinstance(x, (tuple, frozenset)):
            for y in x:
                go(y)
    go(c)
    return s


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, P) and isinstance(b, P):
        if a == b:
            return a
        return mk_ite(c, a, b)
    if isinstance(a, C) or isinstance(b, C):
        ca, cb = to_c(a), to_c(b)
        if ca is not None and cb is not None:
            return C(c_or(c_and(c, ca), c_and(c_not(c), cb)))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.base == b.base and isinstance(a.off, P) and isinstance(b.off, P):
            return Ptr(a.base, mk_ite(c, a.off, b.off) if a.off != b.off else a.off)
    if type(a) is type(b) and same(a, b):
        return a
    if isinstance(a, Vec) and isinstance(b, Vec) and a.base == b.base:
        sa = a.size if a.size is not None else P.a(('size', a.base))
        sb = b.size if b.size is not None else P.a(('size', b.base))
        return Vec(a.base, mk_ite(c, sa, sb), a.et)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.v) == len(b.v) and not any(isinstance(x, Alias) for x in a.v + b.v):
        return Tup([ite(c, x, y) for x, y in zip(a.v, b.v)])
    return Opq('ite', (c, a, b))


def mk_ite(c, a, b):
    if a == b:
        return a
    if c is True:
        return a
    if c is False:
        return b
    if c[0] == 'not':
        c, a, b = c[1], b, a
    return P.a(('ite', c, a, b))


REBUILD['ite'] = lambda a: (lambda c: a[2] if c is True else a[3] if c is False else mk_ite(c, a[2], a[3]))(c_subst(a[1], {-1: None}))


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (P,)):
        return a == b
    if isinstance(a, C):
        return a.c == b.c
    if isinstance(a, Ptr):
        return a.base == b.base and a.off == b.off
    if isinstance(a, Vec):
        return a.base == b.base and (a.size == b.size if a.size is not None and b.size is not None else a.size is b.size)
    if isinstance(a, Obj):
        return a.key == b.key and a.fields is b.fields
    if isinstance(a, Tup):
        return len(a.v) == len(b.v) and all(same(x, y) for x, y in zip(a.v, b.v))
    return False


# -------------------------------------------------------------------- values
class C:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c


class Ptr:
    __slots__ = ('base', 'off', 'ext')

    def __init__(self, base, off, ext=None):
        self.base = base
        self.off = off
        self.ext = ext


def padd(off, d):
    return (off[0] + d,) + off[1:] if isinstance(off, tuple) else off + d


class Vec:
    """Contiguous container with identity `base`."""
    __slots__ = ('base', 'size', 'et')

    def __init__(self, base, size=None, et=''):
        self.base = base
        self.size = size
        self.et = et


class Span:
    """mdspan: pointer + extents (None: multi-index addressing)."""
    __slots__ = ('ptr', 'ext', 'rank')

    def __init__(self, ptr, ext, rank):
        self.ptr = ptr
        self.ext = ext
        self.rank = rank


class Obj:
    __slots__ = ('key', 'fields', 'cls')

    def __init__(self, key, cls='', fields=None):
        self.key = key
        self.cls = cls
        self.fields = fields if fields is not None else {}


class Lam:
    __slots__ = ('node', 'tu', 'this', 'fn')

    def __init__(self, node, tu, this, fn=None):
        self.node = node
        self.tu = tu
        self.this = this
        self.fn = fn


class Tup:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = list(v)


class Str:
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s


class Opq:
    n = 0
    __slots__ = ('why', 'id', 'alts')

    def __init__(self, why, alts=None):
        Opq.n += 1
        self.why = why
        self.id = Opq.n
        self.alts = alts        # (condition, value, value) of a choice between objects


class Alias:
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv


# lvalues: ('var', key) ('elem', base, off) ('fld', objvalue, name) ('tup', tup, i) ('val', value)
def to_p(v):
    if isinstance(v, P):
        return v
    if isinstance(v, C):
        if v.c is True:
            return P.c(1)
        if v.c is False:
            return P.c(0)
        return mk_ite(v.c, P.c(1), P.c(0))
    return None


def to_c(v):
    if isinstance(v, C):
        return v.c
    if isinstance(v, P):
        k = v.const()
        if k is not None:
            return k != 0
        a = v.single_atom()
        if a and a[0] == 'ite' and a[2].const() == 1 and a[3].const() == 0:
            return a[1]
        return c_not(mk_eq(v))
    if isinstance(v, Ptr):
        return ('nn', ('ptr', v.base))
    return None


class Loop:
    __slots__ = ('atom', 'lo', 'hi', 'cond', 'line', 'kind', 'partial')

    def __init__(self, atom, lo, hi, cond=True, line=0, kind='for'):
        self.atom = atom          # atom id of the index
        self.lo = lo
        self.hi = hi
        self.cond = cond
        self.line = line
        self.kind = kind
        self.partial = False

    def key(self):
        return (self.atom, self.lo, self.hi, self.cond)

    def subst(self, mp):
        l = Loop(self.atom, self.lo.subst(mp) if self.lo is not None else None,
                 self.hi.subst(mp) if self.hi is not None else None, c_subst(self.cond, mp), self.line, self.kind)
        l.partial = self.partial
        return l

    def __repr__(self):
        return f'{ATOMS[self.atom][1]} in [{self.lo},{self.hi})' + ('' if self.cond is True else ' if ' + show_cond(self.cond))


class Eff:
    __slots__ = ('kind', 'base', 'off', 'val', 'guards', 'loops', 'fn', 'line', 'name', 'args', 'tu', 'node', 'stack', 'tag', 'cap', 'pre')

    def __init__(self, kind, **kw):
        self.kind = kind
        self.cap = self.pre = ()
        self.tag = self.base = self.off = self.val = self.name = self.args = self.fn = self.tu = self.node = None
        self.line = 0
        self.guards = True
        self.loops = ()
        self.stack = ()
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def where(self):
        return f'{self.fn.rel}:{self.line} ({self.fn.q})' if self.fn else f'?:{self.line}'

    def subst(self, mp):
        def sv(x):
            if isinstance(x, P):
                return x.subst(mp)
            if isinstance(x, tuple):
                return tuple(sv(y) for y in x)
            if isinstance(x, list):
                return [sv(y) for y in x]
            if isinstance(x, Ptr):
                return Ptr(x.base, sv(x.off), x.ext)
            if isinstance(x, C):
                return C(c_subst(x.c, mp))
            return x
        e = Eff(self.kind)
        for k in self.__slots__:
            setattr(e, k, getattr(self, k))
        e.off = sv(self.off)
        e.val = sv(self.val)
        e.args = sv(self.args)
        e.guards = c_subst(self.guards, mp)
        e.loops = tuple(l.subst(mp) for l in self.loops)
        return e

    def __repr__(self):
        s = ''
        if self.kind in ('st', 'acc'):
            o = ', '.join(show(x) for x in self.off) if isinstance(self.off, tuple) else show(self.off)
            s = f'{show_base(self.base)}[{o}] {"=" if self.kind == "st" else "+="} {show(self.val) if isinstance(self.val, P) else self.val}'
        else:
            s = f'{self.kind} {self.name}({", ".join(show_v(a) for a in (self.args or []))})'
        if self.loops:
            s += ' for ' + ', '.join(map(repr, self.loops))
        if self.guards is not True:
            s += ' if ' + show_cond(self.guards)
        return s + f'   @{self.line}'


def show_v(v):
    if isinstance(v, P):
        return show(v)
    if isinstance(v, C):
        return show_cond(v.c)
    if isinstance(v, Ptr):
        o = v.off
        return '&' + show_base(v.base) + '[' + (', '.join(show(x) for x in o) if isinstance(o, tuple) else show(o)) + ']'
    if isinstance(v, Vec):
        return 'vec ' + show_base(v.base)
    if isinstance(v, Str):
        return repr(v.s)
    if isinstance(v, Obj):
        return 'obj ' + show_base(v.key)
    if isinstance(v, Tup):
        return '(' + ', '.join(show_v(x) for x in v.v) + ')'
    if isinstance(v, Opq):
        return f'?{v.why}'
    return type(v).__name__


# ------------------------------------------------------------- sum atoms
def mk_sum(loop, body):
    """sum over one loop of a polynomial; linear, loop-invariant factors move out."""
    res = P()
    lid = loop[0]
    cond_free = c_free(loop[3])
    for m, c in body.t.items():
        inn, out = [], []
        for a, p in m:
            (inn if lid in atom_free(a) else out).append((a, p))
        if not inn and lid not in cond_free:
            if loop[3] is True:
                res = res + P({tuple(out): c}) * (loop[2] - loop[1])
                continue
        inner = P({tuple(inn): Fraction(1)}) if inn else P.c(1)
        loops = (loop,)
        # flatten   A * sum{..}(B)  ->  sum{..}(A*B)
        sums = [(a, p) for a, p in inn if ATOMS[a][0] == 'sum' and p == 1]
        if sums:
            used = {lid}
            inner = P({tuple(x for x in inn if not (ATOMS[x[0]][0] == 'sum' and x[1] == 1)): Fraction(1)})
            for a0, _ in sums:
                sa = ATOMS[a0]
                if used & {l[0] for l in sa[1]}:
                    sa = alpha(sa)
                used |= {l[0] for l in sa[1]}
                loops = loops + sa[1]
                inner = inner * sa[2]
        res = res + P({tuple(out): c}) * P.a(('sum', loops, inner))
    return res


_ALPHA = [0]


def alpha(a):
    """the same sum with fresh bound indices"""
    mp = {}
    ls = []
    for i, lo, hi, cond in a[1]:
        _ALPHA[0] += 1
        na = ('loop', str(ATOMS[i][1]).split('~')[0] + f'~{_ALPHA[0]}', ('al', _ALPHA[0]))
        ls.append((atom_id(na), lo.subst(mp), hi.subst(mp), cond))
        mp[i] = P.a(na)
    ls = [(i, lo, hi, c_subst(cond, mp)) for i, lo, hi, cond in ls]
    return ('sum', tuple(ls), a[2].subst(mp))


def freshen(p):
    """rename every bound sum index of p (capture-free instantiation)"""
    if not any(ATOMS[x][0] == 'sum' for x in p.free()):
        return p
    r = P()
    for m, c in p.t.items():
        q = P({(): c})
        for a, n in m:
            v = _fresh_atom(a)
            for _ in range(n):
                q = q * v
        r = r + q
    return r


def _fresh_atom(i):
    if not any(ATOMS[x][0] == 'sum' for x in atom_free(i)):
        return P({((i, 1),): Fraction(1)})
    a = ATOMS[i]
    if a[0] == 'sum':
        a = alpha(a)
        return P.a(('sum', a[1], freshen(a[2])))
    return P.a(map_nested(a, freshen))


def rebuild_sum(a):
    loops, body = a[1], a[2]
    r = body
    for l in reversed(loops):
        r = mk_sum(l, r)
    return r


REBUILD['sum'] = rebuild_sum


def mk_rec(vs, j, n):
    """first variable of the system x_i' = q_i(x, j), x_i(0) = a_i after n iterations"""
    if n.is_zero():
        return vs[0][1]
    return P.a(('rec', vs, j, n))


REBUILD['rec'] = lambda a: mk_rec(a[1], a[2], a[3])


class Unsupported(Exception):
    pass


ZERO, ONE = P.c(0), P.c(1)


class Flow:
    __slots__ = ('ret', 'brk', 'cont', 'thr')

    def __init__(self, ret=False, brk=False, cont=False, thr=False):
        self.ret, self.brk, self.cont, self.thr = ret, brk, cont, thr

    def any(self):
        return c_or(self.ret, self.brk, self.cont, self.thr)


def each(base, name):
    """the array formed by member `name` of the elements of base"""
    return ('fld', ('each', base), name)


def targs(t):
    """template arguments of a type name"""
    out, d, s = [], 0, ''
    for ch in t[t.index('<') + 1:t.rindex('>')]:
        if ch == ',' and d == 0:
            out.append(s.strip())
            s = ''
            continue
        d += (ch in '<(') - (ch in '>)')
        s += ch
    return out + [s.strip()]


def st_has(v, S):
    if isinstance(v, P):
        return not S.isdisjoint(v.free())
    if isinstance(v, C):
        return not S.isdisjoint(c_free(v.c))
    if isinstance(v, Ptr):
        return isinstance(v.off, P) and not S.isdisjoint(v.off.free())
    if isinstance(v, Vec):
        return v.size is not None and not S.isdisjoint(v.size.free())
    if isinstance(v, Alias):
        return v.lv[0] == 'elem' and isinstance(v.lv[2], P) and not S.isdisjoint(v.lv[2].free())
    if isinstance(v, tuple):
        return not S.isdisjoint(c_free(v))
    return False


ORIENT = {}


class Exec:
    MAXDEPTH = 14

    def __init__(self, prog, noinline=(), hooks=None, opaque_calls=True):
        self.prog = prog
        self.env = {}
        self.eff = []
        self.pc = []            # list of conditions
        self.loops = []
        self.sorted = set()     # arrays searched by bisection
        self.opaque = []        # log of (where, reason)
        self.stack = []         # functions being inlined
        self.this = None
        self.tu = None
        self.noinline = set(noinline)
        self.hooks = hooks or {}
        self.uid = 0
        self.callno = {}
        self.inlam = 0
        self.loopmeta = False
        self.quiet = ()
        self.nolog = 0
        self.rets = None
        self.retraw = {}
        self.nfilelog = 0
        self.literals = {}      # named text constants
        self.snaps = None
        self.loopsnaps = []
        self.brksnaps = []
        self.vtypes = {}
        self.readlog = []
        self.inst = 0
        self.ninst = 0
        self.base_pc = 0
        self.base_loops = 0
        self.fnkeys = None
        self.forks = []         # states saved while a branch is followed
        self.loopst = []        # states saved at the entry of the loops being followed
        self.pendcap = []

    # ------------------------------------------------------------ utilities
    def fresh(self, tag):
        self.uid += 1
        return (tag, self.uid)

    def log(self, n, why):
        if self.nolog:
            return
        f = self.stack[-1][0] if self.stack else None
        self.opaque.append((f'{f.rel}:{n.get("l", 0)}' if f else '?', why))

    def opq(self, n, why):
        self.log(n, why)
        return Opq(why)

    def opq_p(self, n, why):
        self.log(n, why)
        self.uid += 1
        return P.a(('opq', why, self.uid) + self.loopdep())

    def loopdep(self):
        return tuple(P({((l.atom, 1),): Fraction(1)}) for l in self.loops)

    def ty(self, n):
        return self.tu.ty(n)

    def vk(self, i):
        return (id(self.tu), i)

    def guard(self):
        return c_and(*self.pc)

    def emit(self, kind, n, **kw):
        f = self.stack[-1][0] if self.stack else None
        e = Eff(kind, guards=self.guard(), loops=tuple(self.loops), fn=f, line=n.get('l', 0), tu=self.tu, node=n,
                stack=tuple((s[0].q, s[1]) for s in self.stack), **kw)
        if kind == 'call' and e.args:
            for i, a in enumerate(e.args):
                if isinstance(a, Alias):
                    a = self.val(a)
                if isinstance(a, Lam):
                    e.args = list(e.args)
                    e.args[i] = self.lam_summary(a, n)
        if self.pendcap:
            e.pre, self.pendcap = tuple(self.pendcap), []
        if kind in ('st', 'acc'):
            if LOADS.get(e.base):
                self.written(e, e.base, e.off)
            for b in EACH.get(e.base, ()):
                self.written(e, b, e.off)
        elif kind in ('vnew', 'vcopy', 'vmove', 'alloc'):
            for b in [e.base] + EACH.get(e.base, []):
                self.written(e, b, None)
        elif kind in ('call', 'ctor', 'scan'):
            import norm
            for a in e.args or []:
                if isinstance(a, (Ptr, Vec)) and a.base and a.base[0] != 'addr' and (a.base in LOADS or a.base in EACH) and not norm.const_arg(e, a):
                    for b in [a.base] + EACH.get(a.base, []):
                        self.written(e, b, None)
        self.eff.append(e)
        return e

    # -- values read from memory before that memory changes --------------------
    def states(self):
        """dictionaries and lists holding values of the program at this point"""
        yield self.env
        for env, objs in self.forks:
            yield env
            for _, f in objs.values():
                yield f
        for ss in self.loopsnaps + self.brksnaps:
            for sn in ss:
                yield sn[2]
                for _, f in sn[3].values():
                    yield f
        for o in self.reach().values():
            yield o.fields if isinstance(o, Obj) else o.v

    def written(self, e, base, off):
        """the cells of base that e changes: values read from them earlier keep their meaning"""
        S = LOADS.get(base)
        if not S:
            return
        for st in self.loopst:
            if base not in st.done and base not in st.need and any(st_has(x, S) for x in st.values()):
                st.need.add(base)
        if any(base in st.need for st in self.loopst):
            return              # the outer loop is followed again with the values fixed at its entry
        u = self.age(base, off, S)
        if u is not None:
            e.cap = e.cap + ((base, u),)

    def age(self, base, off, S=None):
        S = LOADS.get(base) if S is None else S
        if not S:
            return None
        uid = [None]
        memo = {}
        pin = set()
        for st in self.loopst:
            pin |= st.ids()

        def aged(p):
            if S.isdisjoint(p.free()) or id(p) in pin:
                return p
            mp = {}
            for i in sorted(S & p.free()):
                o = ATOMS[i][2]
                if off is not None and isinstance(o, P) and isinstance(off, P):
                    d = (o - off).const()
                    if d is not None and d != 0:
                        continue
                if i not in memo:
                    if uid[0] is None:
                        self.uid += 1
                        uid[0] = self.uid
                    memo[i] = P.a(('ld', ('at', base, uid[0]), o.subst(mp) if isinstance(o, P) else o))
                mp[i] = memo[i]
            return p.subst(mp) if mp else p
        cmemo = {}

        def go(v):
            if isinstance(v, P):
                return aged(v)
            if isinstance(v, C):
                c = cond(v.c)
                return v if c is v.c else C(c)
            if isinstance(v, Ptr) and isinstance(v.off, P):
                o = aged(v.off)
                return v if o is v.off else Ptr(v.base, o, v.ext)
            if isinstance(v, Vec) and v.size is not None:
                o = aged(v.size)
                return v if o is v.size else Vec(v.base, o, v.et)
            if isinstance(v, Alias) and v.lv[0] == 'elem' and isinstance(v.lv[2], P):
                o = aged(v.lv[2])
                return v if o is v.lv[2] else Alias(v.lv[:2] + (o,) + v.lv[3:])
            return v

        def cond(c):
            if c is True or c is False or S.isdisjoint(c_free(c)):
                return c
            mp = {}
            for i in c_free(c) & S:
                q = aged(P({((i, 1),): Fraction(1)}))
                if q.t != {((i, 1),): 1}:
                    mp[i] = q
            return c_subst(c, mp) if mp else c
        same_ = {}

        def upd(v):
            k = id(v)
            if k not in same_:
                same_[k] = (go(v), v)
            return same_[k][0]
        for d in self.states():
            for k, v in (list(d.items()) if isinstance(d, dict) else list(enumerate(d))):
                if isinstance(v, (P, C, Ptr, Vec, Alias)) and id(v) not in pin:
                    w = upd(v)
                    if w is not v:
                        d[k] = w
        low = max((st.npc for st in self.loopst), default=0)
        for i in range(low, len(self.pc)):
            self.pc[i] = cond(self.pc[i])
        if self.rets:
            for i, (g, v, sn) in enumerate(self.rets):
                if not (isinstance(g, tuple) and g[0] == 'loopret'):
                    g = cond(g)
                self.rets[i] = (g, upd(v) if v is not None else v, sn)
                if sn:
                    for d in [sn[2]] + [f for _, f in sn[3].values()]:
                        for k, x in (list(d.items()) if isinstance(d, dict) else list(enumerate(d))):
                            if isinstance(x, (P, C, Ptr, Vec, Alias)) and id(x) not in pin:
                                d[k] = upd(x)
        return uid[0]

    def lam_summary(self, l, n):
        """what a function object handed to library code computes, as a term"""
        import loops
        if self.inlam > 2 or l.node is None or not l.node.get('spec'):
            return P.a(('lam', str((l.fn or {}).get('fn')) if l.node is None else '?'))
        sp = l.node['spec'][0]
        st = loops._save(self)
        lv = (list(self.pc), list(self.loops), dict(self.callno), self.uid)
        self.inlam += 1
        try:
            vs = []
            for k, p in enumerate(sp['params']):
                vs.append(self.default_value(('p', f'${self.inlam}.{k}'), l.tu.types[p['t']]))
            n0 = len(self.eff)
            self.pc = []
            r = self.call_lambda(l, vs, {'k': 'call', 'l': n.get('l', 0), 'args': [], 't': -1})
            body = tuple((e.kind, e.base, e.off, argkey(e.val) if isinstance(e.val, (P, C, Ptr, Vec, Obj, Tup)) else str(e.name), e.guards,
                          tuple((x.lo, x.hi) for x in e.loops[len(lv[1]):])) for e in self.eff[n0:] if e.kind in ('st', 'acc', 'call', 'throw'))
            rv = argkey(self.val(r)) if isinstance(self.val(r), (P, C, Ptr, Vec, Obj, Tup)) else 'void'
            out = P.a(('lam', rv, body))
        except (KeyError, IndexError, TypeError, AttributeError):
            out = P.a(('lam', '?'))
        finally:
            self.inlam -= 1
            self.pc, self.loops, self.callno = lv[0], lv[1], lv[2]
            loops._restore(self, st)
        return out

    # --------------------------------------------------------------- values
    def default_value(self, key, t, name=''):
        """Symbolic value of an unknown object of type t identified by key."""
        s = strip_t(t)
        if s.endswith('*') or s.endswith('*const') or s.endswith('* __restrict'):
            return Ptr(key, ZERO)
        if s.startswith('std::vector<') or s.startswith('std::__cxx11::basic_string') or s.startswith('std::array<'):
            return Vec(key, None, elem_type(s))
        if '::mdspan<' in s or s.startswith('Kokkos::mdspan'):
            m = re.search(r'extents<[^<>]*, (\d+)>', s)
            return Span(Ptr(key, ZERO), None, int(m.group(1)) if m else None)
        if s in prog.ENUMS:
            return enum_value(s, P.a(('par', key[1]) if key[0] == 'p' else ('val', key)))
        if s == 'bool' or is_int(s) or s in ('double', 'float', 'long double') or s.startswith('enum') :
            return P.a(('par', key[1]) if key[0] == 'p' else ('val', key))
        if s.startswith('std::bitset<') and bits.width(s):
            return bits.leaf(bits.width(s), P.a(('par', key[1]) if key[0] == 'p' else ('val', key)))
        if s.startswith('__gnu_cxx::__normal_iterator'):
            return Ptr(key, ZERO)
        if s.startswith('std::shared_ptr<') or s.startswith('std::unique_ptr<'):
            inner = s[s.index('<') + 1:-1]
            if inner.endswith('[]'):
                return Ptr(key, ZERO)
            return Ptr(('deref', key), ZERO)
        if s.startswith('macis::NamedType<'):
            return Obj(key, s, {'__named__': P.a(('par', key[1]) if key[0] == 'p' else ('val', key))})
        return Obj(key, s)

    def load(self, base, off, t='', n=None):
        if base[0] == 'scalarref':
            return self.get(base[1])
        if base[0] == 'words':
            x = self.get(base[3])
            k = bits.K(off)
            if isinstance(x, P) and k is not None and k >= 0:
                return bits.word(base[1], base[2], x, k)
            return self.opq_p(n or {}, 'word of a bit string')
        s = strip_t(t)
        h = self.hooks.get('load')
        if h:
            r = h(self, base, off, t, n)
            if r is not None:
                return r
        if s.endswith('*') or s.startswith('std::') or '::' in s and not s.startswith('enum') and not is_int(s) and s not in prog.ENUMS:
            if s.startswith('std::complex'):
                return P.a(('ld', base, off))
            if s.startswith('std::bitset<') and bits.width(s):
                return bits.leaf(bits.width(s), P.a(('ld', base, off)))
            return self.default_value(('el', base, off), t)
        return P.a(('ld', base, off))

    def get(self, lv):
        k = lv[0]
        if k == 'var':
            v = self.env.get(lv[1])
            if isinstance(v, Alias):
                return self.get(v.lv)
            if v is None:
                t = self.vtypes.get(lv[1], '')
                v = self.default_value(('loc', lv[1][1], f'v{lv[1][1]}'), t) if t else Opq('unset')
                self.env[lv[1]] = v
            return v
        if k == 'elem':
            return self.load(lv[1], lv[2], lv[3] if len(lv) > 3 else '')
        if k == 'fld':
            o, name, t = lv[1], lv[2], lv[3]
            if name in o.fields:
                v = o.fields[name]
                if isinstance(v, Alias):
                    return self.get(v.lv)
                return v
            v = self.default_value(('fld', o.key, name), t)
            nb = bits.width(t) if isinstance(v, P) else None
            if isinstance(v, P) and o.key[0] == 'el':
                v = P.a(('ld', each(o.key[1], name), o.key[2]))
                return bits.leaf(nb, v) if nb else v
            if isinstance(v, P):
                v = P.a(('fld', o.key, name))
                if nb:
                    v = bits.leaf(nb, v)
            o.fields[name] = v
            return v
        if k == 'tup':
            v = lv[1].v[lv[2]]
            if isinstance(v, Alias):
                return self.get(v.lv)
            return v
        if k == 'val':
            return lv[1]
        if k == 'bit':
            x = self.get(lv[1])
            return C(c_not(mk_eq(bits.test(x, lv[2])))) if isinstance(x, P) else Opq('bit')
        return Opq('get')

    def put(self, lv, v, n, op='='):
        k = lv[0]
        if k == 'var':
            cur = self.env.get(lv[1])
            if isinstance(cur, Alias):
                return self.put(cur.lv, v, n, op)
            if isinstance(v, Vec) and isinstance(cur, Vec) and cur.base != v.base:
                self.emit('vcopy', n, base=cur.base, off=self.size_of(v), val=v.base)
                self.env[lv[1]] = Vec(cur.base, v.size, cur.et)
                return
            self.env[lv[1]] = v
            return
        if k == 'elem':
            if lv[1][0] == 'scalarref':
                return self.put(lv[1][1], v, n, op)
            if lv[1][0] == 'words':
                _, w, nb, l2 = lv[1]
                x, q, i = self.get(l2), to_p(v), bits.K(lv[2])
                if isinstance(x, P) and q is not None and i is not None and i >= 0:
                    f = P.c(2 ** (w * i))
                    return self.put(l2, x + (q - bits.word(w, nb, x, i)) * f if w < nb or i else q, n)
                self.put(l2, self.opq_p(n, 'word of a bit string'), n)
                return
            p = to_p(v)
            if p is None and self.scatter(n, lv[1], lv[2], v, lv[3] if len(lv) > 3 else ''):
                return
            self.store(n, lv[1], lv[2], p if p is not None else v)
            return
        if k == 'fld':
            o = lv[1]
            cur = o.fields.get(lv[2])
            if isinstance(cur, Alias):
                return self.put(cur.lv, v, n, op)
            if o.key[0] == 'el' and to_p(v) is not None:
                o.fields.pop(lv[2], None)
                self.store(n, each(o.key[1], lv[2]), o.key[2], to_p(v))
                return
            self.emit('setfld', n, base=o.key, name=lv[2], val=v)
            o.fields[lv[2]] = v
            return
        if k == 'tup':
            cur = lv[1].v[lv[2]]
            if isinstance(cur, Alias):
                return self.put(cur.lv, v, n, op)
            lv[1].v[lv[2]] = v
            return
        if k == 'bit':
            x, p = self.get(lv[1]), to_p(v)
            self.put(lv[1], bits.put(lv[3], x, lv[2], p) if isinstance(x, P) and p is not None else self.opq_p(n, 'bit'), n)
            return
        self.log(n, 'store to ' + str(k))

    def members(self, t):
        """names of the members of a pair, tuple or plain record type"""
        t = strip_t(t)
        if t.startswith('std::pair<'):
            return ['first', 'second']
        if t.startswith('std::tuple<'):
            return [f'#{i}' for i in range(len(targs(t)))]
        r = self.record(t)
        return [f['n'] for f in r['fields']] if r else None

    def scatter(self, n, base, off, v, t):
        """a whole element is assigned: member by member"""
        ms = self.members(t) if t else None
        if not ms or not isinstance(off, P):
            return False
        if isinstance(v, Tup):
            if len(v.v) != len(ms):
                return False
            ps = [to_p(self.val(x)) for x in v.v]
        elif isinstance(v, Obj) and (v.key[0] == 'el' or set(ms) <= set(v.fields)):
            if v.key[0] == 'el' and not (strip_t(t).startswith('std::pair<') and 'pair<' in (v.cls or '')):
                return False
            ps = [P.a(('ld', each(v.key[1], m), v.key[2])) if v.key[0] == 'el' else to_p(self.val(v.fields[m])) for m in ms]
        else:
            return False
        if any(p is None for p in ps):
            return False
        for m, p in zip(ms, ps):
            self.store(n, each(base, m), off, p)
        return True

    def store(self, n, base, off, val):
        if not isinstance(val, P):
            self.emit('st', n, base=base, off=off, val=val if val is not None else self.opq_p(n, 'stored value'))
            return
        me = ((atom_id(('ld', base, off)), 1),)
        if val.t.get(me) == 1 and not any(me[0][0] in dict(m) for m in val.t if m != me):
            rest = P({m: c for m, c in val.t.items() if m != me})
            if not (me[0][0] in rest.free()):
                self.emit('acc', n, base=base, off=off, val=rest)
                return
        self.emit('st', n, base=base, off=off, val=val)

    # ------------------------------------------------------------- lvalues
    def lv(self, e):
        k = e['k']
        if k == 'ref':
            if e.get('dk') in ('param', 'local', 'static', 'binding'):
                key = self.vk(e['id'])
                if key not in self.vtypes:
                    self.vtypes[key] = self.ty(e)
                v = self.env.get(key)
                if isinstance(v, Alias):
                    return v.lv
                return ('var', key)
            if e.get('dk') == 'global':
                key = ('g', e.get('q'))
                self.vtypes.setdefault(key, self.ty(e))
                return ('var', key)
            return ('val', self.ev(e))
        if k == 'mem':
            if e.get('dk') == 'field':
                b = self.ev(e['base'])
                if isinstance(b, Ptr):
                    b = self.deref_obj(b, e['base'])
                if isinstance(b, Tup) and e['n'] in ('first', 'second'):
                    return ('tup', b, 0 if e['n'] == 'first' else 1)
                if isinstance(b, Obj):
                    return ('fld', b, e['n'], self.ty(e))
                return ('val', self.opq(e, 'field of non-object'))
            return ('val', self.ev(e))
        if k == 'sub':
            b = self.ev(e['base'])
            i = to_p(self.ev(e['idx']))
            if isinstance(b, Ptr) and i is not None:
                return self.elem(b, i, self.ty(e))
            if isinstance(b, Vec) and i is not None:
                return ('elem', b.base, i, self.ty(e))
            return ('val', self.opq(e, 'subscript'))
        if k == 'un' and e['op'] == '*':
            b = self.ev(e['e'])
            return self.deref(b, e)
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            self.ev(e)
            return self.lv(e['e'])
        if k == 'asg':
            self.ev(e)
            return self.lv(e['a'])
        if k == 'cast':
            return self.lv(e['e'])
        if k == 'cond':
            c = to_c(self.ev(e['c']))
            if c is True:
                return self.lv(e['a'])
            if c is False:
                return self.lv(e['b'])
            return ('val', self.ev(e))
        if k == 'call':
            r = self.call(e, want_lv=True)
            if isinstance(r, Alias):
                return r.lv
            return ('val', r)
        if k == 'this':
            return ('val', self.this)
        return ('val', self.ev(e))

    def elem(self, b, i, t):
        off = b.off
        if isinstance(off, tuple):      # layout_left: the first index is the contiguous one
            return ('elem', b.base, padd(off, i), t)
        if b.base[0] == 'addr':
            if (off + i).is_zero():
                return b.base[1]
        return ('elem', b.base, off + i, t)

    def deref(self, b, n):
        if isinstance(b, Ptr):
            if b.base[0] == 'addr' and b.off.is_zero():
                return ADDR[b.base[1]]
            if b.base[0] == 'deref':
                return ('val', self.deref_obj(b, n))
            return ('elem', b.base, b.off, self.ty(n))
        if isinstance(b, Alias):
            return b.lv
        if isinstance(b, Obj):
            return ('val', b)
        return ('val', self.opq(n, 'dereference'))

    def deref_obj(self, b, n):
        if b.base[0] == 'addr' and b.off.is_zero():
            return self.get(ADDR[b.base[1]])
        if b.base[0] == 'this':
            return self.this
        key = ('obj', b.base, b.off)
        k2 = ('objcache',) + key
        if k2 not in self.env:
            t = self.ty(n)
            t = strip_t(t)
            if t.endswith('*'):
                t = t[:-1]
            self.env[k2] = Obj(key, t)
        return self.env[k2]

    # --------------------------------------------------------- expressions
    def ev(self, e):
        if e is None:
            return Opq('null')
        k = e['k']
        if 'i' in e and k == 'ref' and e.get('dk') == 'enum':
            return self.ev_ref(e)
        if 'i' in e and k not in ('asg', 'call', 'lambda') and not (k == 'un' and e['op'] in ('++', '--')):
            return P.c(e['i'])
        if 'ibig' in e and k not in ('asg', 'call'):
            return P.c(int(e['ibig']))
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            return self.opq(e, 'expr ' + k)
        return m(e)

    def ev_int(self, e):
        return P.c(e['i']) if 'i' in e else self.opq_p(e, 'int')

    def ev_bool(self, e):
        return P.c(e['i'])

    def ev_char(self, e):
        return P.c(e.get('i', 0))

    def ev_float(self, e):
        return P.c(e['v'])

    def ev_str(self, e):
        return Str(e.get('v', ''))

    def ev_null(self, e):
        return P.c(0)

    def ev_zero(self, e):
        t = strip_t(self.ty(e))
        if t.endswith('*') or is_int(t) or t in ('double', 'float') or bits.width(t):
            return P.c(0)
        return self.default_value(self.fresh('zeroinit'), self.ty(e))

    def ev_this(self, e):
        if self.this is None:
            return self.opq(e, 'this')
        return self.this

    def ev_sizeof(self, e):
        return P.a(('sizeof', self.tu.types[e['of']]))

    def ev_ref(self, e):
        dk = e.get('dk')
        if dk in ('param', 'local', 'static', 'binding', 'global'):
            return self.get(self.lv(e))
        if dk == 'func':
            return Lam(None, self.tu, None, e)
        if dk == 'enum':
            t, _, nm = (e.get('q') or '').rpartition('::')
            for k in (strip_t(self.ty(e)), t):
                if nm in prog.ENUMS.get(k, ()):
                    return P.c(prog.ENUMS[k][nm])
            return P.a(('enum', e.get('q')))
        return P.a(('const', e.get('q') or e.get('n')))

    def ev_mem(self, e):
        if e.get('dk') == 'field':
            return self.get(self.lv(e))
        if e.get('dk') == 'func':
            return Lam(None, self.tu, None, e)
        return P.a(('const', e.get('q')))

    def ev_sub(self, e):
        return self.get(self.lv(e))

    def ev_cast(self, e):
        v = self.ev(e['e'])
        ck = e['ck']
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            c = to_c(v)
            return C(c) if c is not None else self.opq(e, 'bool cast')
        if ck in ('FloatingToIntegral',):
            p = to_p(v)
            if p is not None:
                k = p.const()
                if k is not None:
                    return P.c(int(k))
                return P.a(('trunc', p))
        if ck == 'BitCast' and isinstance(v, Ptr):
            nb = bits.width(self.ty(e['e']).strip().rstrip('*'))
            w = bits.WORD.get(strip_t(self.ty(e).strip().rstrip('*')))
            if nb and w:
                if v.base[0] == 'addr' and v.off.is_zero():
                    return Ptr(('words', w, nb, ADDR[v.base[1]]), ZERO)
                if isinstance(v.off, P):
                    return Ptr(('words', w, nb, ('elem', v.base, v.off, f'std::bitset<{nb}>')), ZERO)
        if ck == 'IntegralCast':
            nb = bits.WORD.get(strip_t(self.ty(e)))
            p = v if isinstance(v, P) else None
            a = p.single_atom() if p is not None else None
            if a and a[0] in bits.VALUE and nb and a[0] != 'bits' and nb < (bits.WORD.get(strip_t(self.ty(e['e']))) or 0):
                return bits.mod(nb, p)
        return v

    def ev_un(self, e):
        op = e['op']
        if op in ('++', '--'):
            l = self.lv(e['e'])
            old = self.get(l)
            d = ONE if op == '++' else P.c(-1)
            if isinstance(old, P):
                new = old + d
            elif isinstance(old, Ptr) and isinstance(old.off, P):
                new = Ptr(old.base, old.off + d, old.ext)
            else:
                new = self.opq(e, op)
            self.put(l, new, e)
            return old if e.get('post') else new
        if op == '*':
            return self.get(self.lv(e))
        if op == '&':
            l = self.lv(e['e'])
            if l[0] == 'elem':
                return Ptr(l[1], l[2])
            if l[0] == 'val':
                return l[1]
            return Ptr(('addr', addr_key(l)), ZERO)
        v = self.ev(e['e'])
        if op == '!':
            c = to_c(v)
            return C(c_not(c)) if c is not None else self.opq(e, '!')
        p = to_p(v)
        if op == '-' and p is not None:
            return -p
        if op == '+':
            return v
        if op == '~' and p is not None:
            t = strip_t(self.ty(e))
            return bits.inv(bits.WORD[t], p) if t in bits.UNSIGNED else -p - ONE
        return self.opq(e, 'unary ' + op)

    def ev_bin(self, e):
        op = e['op']
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op in ('&&', '||'):
            a = to_c(self.ev(e['a']))
            if a is False and op == '&&':
                return C(False)
            if a is True and op == '||':
                return C(True)
            b = to_c(self.ev(e['b']))
            if a is None or b is None:
                return C(('opqc', self.fresh('c'))) if not self.log(e, op) else None
            return C(c_and(a, b) if op == '&&' else c_or(a, b))
        a = self.ev(e['a'])
        b = self.ev(e['b'])
        return self.binop(op, a, b, e, self.ty(e['a']))

    def binop(self, op, a, b, e, ta=''):
        if isinstance(a, Ptr) and op in ('+', '-') and to_p(b) is not None:
            return Ptr(a.base, padd(a.off, to_p(b) if op == '+' else P() - to_p(b)), a.ext)
        if isinstance(b, Ptr) and op == '+' and to_p(a) is not None:
            return Ptr(b.base, padd(b.off, to_p(a)), b.ext)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base and isinstance(a.off, P) and isinstance(b.off, P):
                d = a.off - b.off
                if op == '-':
                    return d
                a, b = a.off, b.off
                ta = 'long'
            elif isinstance(a.off, P) and isinstance(b.off, P):
                d = self.distance(b, a, e)
                if op == '-':
                    return d
                a, b = d, ZERO
                ta = 'long'
            elif op in ('==', '!='):
                c = ('ptreq', frozenset([(a.base, a.off), (b.base, b.off)]))
                return C(c if op == '==' else c_not(c))
            elif op == '-':
                return self.opq_p(e, 'ptr diff')
        if isinstance(a, Ptr) and op in ('==', '!=') and isinstance(b, P) and b.is_zero():
            c = ('nn', ('ptr', a.base))
            return C(c_not(c) if op == '==' else c)
        pa, pb = to_p(a), to_p(b)
        if pa is None or pb is None:
            if op in ('==', '!=', '<', '>', '<=', '>='):
                self.log(e, 'compare ' + op)
                return C(('opqc', self.fresh('c')))
            return self.opq_p(e, 'binary ' + op)
        it = is_int(ta)
        if op == '+':
            return pa + pb
        if op == '-':
            return pa - pb
        if op == '*':
            return pa * pb
        if op == '/':
            k = pb.const()
            if it:
                ka = pa.const()
                if k and ka is not None:
                    return P.c(int(ka / k))
                if k == 1:
                    return pa
                return P.a(('idiv', pa, pb))
            if k:
                return pa * P.c(Fraction(1) / k)
            return pa * P.a(('inv', pb))
        if op == '%':
            return P.a(('mod', pa, pb))
        if op in ('<', '>', '<=', '>='):
            if op in ('>', '<='):
                # a > b  <=> b < a ; a <= b <=> !(b < a)
                d = pb - pa
            else:
                d = pa - pb
            neg = op in ('<=', '>=')
            c = mk_lti(d) if it else mk_lt(d)
            return C(c_not(c) if neg else c)
        if op in ('==', '!='):
            c = mk_eq(pa - pb)
            return C(c if op == '==' else c_not(c))
        if op in ('<<', '>>', '&', '|', '^'):
            ka, kb = pa.const(), pb.const()
            if ka is not None and kb is not None and ka.denominator == 1 and kb.denominator == 1 and ka >= 0 and kb >= 0 and kb < 4096:
                ia, ib = int(ka), int(kb)
                return P.c({'<<': ia << ib if op == '<<' else 0, '>>': ia >> ib if op == '>>' else 0, '&': ia & ib, '|': ia | ib, '^': ia ^ ib}[op])
            if op in ('&', '|', '^'):
                return bits.logic(op, pa, pb)
            if op == '>>':
                return bits.shr(pa, pb)
            a = pa.single_atom()
            if a and a[0] in bits.VALUE or ka is not None and strip_t(ta) in ('unsigned long', 'unsigned long long', 'unsigned __int128'):
                return bits.shl(bits.WORD.get(strip_t(ta), 64), pa, pb)
            if kb is not None:
                return pa * P.c(2 ** int(kb))
            return P.a(('shift' + op, pa, pb))
        return self.opq_p(e, 'binary ' + op)

    def ev_asg(self, e):
        op = e['op']
        if op == '=':
            v = self.ev(e['b'])
            l = self.lv(e['a'])
            self.put(l, v, e)
            return v
        l = self.lv(e['a'])
        b = self.ev(e['b'])
        a = self.get(l)
        v = self.binop(op[:-1], a, b, e, self.ty(e['a']))
        if l[0] == 'elem' and isinstance(v, P):
            p = to_p(b)
            if op == '+=' and p is not None:
                self.emit_acc(e, l, p)
                return v
            if op == '-=' and p is not None:
                self.emit_acc(e, l, -p)
                return v
        self.put(l, v, e)
        return v

    def emit_acc(self, n, l, p):
        if l[1][0] == 'scalarref':
            self.put(l[1][1], self.get(l[1][1]) + p, n)
            return
        self.emit('acc', n, base=l[1], off=l[2], val=p)

    def ev_cond(self, e):
        c = to_c(self.ev(e['c']))
        if c is True:
            return self.ev(e['a'])
        if c is False:
            return self.ev(e['b'])
        if c is None:
            c = ('opqc', self.fresh('c'))
            self.log(e, 'condition')
        self.pc.append(c)
        sav = self.fork()
        a = self.ev(e['a'])
        ea = self.env
        self.env = sav
        self.pc[-1] = c_not(c)
        b = self.ev(e['b'])
        self.pc.pop()
        self.merge(c, ea, self.env)
        if isinstance(a, Lam) or isinstance(b, Lam):
            return self.opq(e, 'conditional lambda')
        return ite(c, a, b)

    def ev_lambda(self, e):
        return Lam(e, self.tu, self.this)

    def ev_throw(self, e):
        self.emit('throw', e, name='throw', args=[])
        return Opq('throw')

    def ev_new(self, e):
        sz = to_p(self.ev(e['size'])) if 'size' in e else ONE
        key = ('new', f'{e["l"]}', self.fresh('n')[1])
        self.emit('alloc', e, base=key, val=sz)
        return Ptr(key, ZERO, sz)

    def ev_delete(self, e):
        return Opq('delete')

    def ev_init(self, e):
        t = strip_t(self.ty(e))
        args = [self.ev(a) for a in e['args']]
        if len(args) == 1 and not e.get('cls') and not t.endswith(']'):
            return args[0]
        if t.startswith('std::array') or t.endswith(']'):
            if len(args) == 1 and isinstance(args[0], Tup):
                return args[0]
            return Tup(args)
        if e.get('cls', '').startswith('std::initializer_list'):
            return Tup(args)
        if not args and (is_int(t) or t in ('double', 'float') or t.endswith('*')):
            return ZERO
        # aggregate
        o = Obj(self.fresh('agg'), t, {})
        rec = self.record(t)
        if rec:
            for f, a in zip(rec['fields'], args):
                o.fields[f['n']] = a
            return o
        return Tup(args)

    def record(self, t):
        for r in self.tu.recs:
            if self.tu.types[r['t']] == t:
                return r
        return None

    def ev_other(self, e):
        return self.opq(e, 'other ' + e.get('cls', ''))

    # ------------------------------------------------------------ ctor/call
    def ev_ctor(self, e):
        cls = e.get('cls', '')
        t = strip_t(self.ty(e))
        cm = e.get('cm')
        args = e['args']
        if cls.startswith('std::vector') or cls.startswith('std::__cxx11::basic_string') or cls == 'std::vector' or cls.startswith('std::array'):
            return self.ctor_vec(e, t)
        if 'mdspan' in cls and 'extents' not in cls:
            vs = [self.ev(a) for a in args]
            if cm in ('copy', 'move') or (len(vs) == 1 and isinstance(vs[0], Span)):
                return vs[0]
            if vs and isinstance(vs[0], Ptr):
                return Span(vs[0], [to_p(v) for v in vs[1:]], len(vs) - 1)
            return self.opq(e, 'mdspan ctor')
        if cls.startswith('std::pair') or cls.startswith('std::tuple'):
            vs = [self.ev(a) for a in args]
            if len(vs) == 1:
                if isinstance(vs[0], Tup):
                    return Tup(vs[0].v)
                return vs[0]
            if not vs:
                return Tup([ZERO, ZERO]) if 'pair' in cls else Tup([])
            return Tup(vs)
        if cls.startswith('macis::NamedType') or 'NamedType' in cls:
            vs = [self.ev(a) for a in args]
            if vs and isinstance(vs[0], Obj):
                return vs[0]
            return Obj(self.fresh('nt'), t, {'__named__': vs[0] if vs else ZERO})
        if cls.startswith('std::shared_ptr') or cls.startswith('std::unique_ptr'):
            vs = [self.ev(a) for a in args]
            if vs and not isinstance(vs[0], Opq):
                return vs[0]
            return ZERO
        if cls == 'std::bitset':
            vs = [self.ev(a) for a in args if not a.get('defarg')]
            if not vs:
                return ZERO
            if len(vs) == 1 and to_p(vs[0]) is not None:
                p, nb = to_p(vs[0]), bits.width(t)
                if cm in ('copy', 'move') or nb is None or nb >= 64 and strip_t(self.ty(args[0])) in bits.UNSIGNED:
                    return p
                return bits.mod(nb, p)
            return bits.leaf(bits.width(t) or 64, self.opq_p(e, 'bitset ctor'))
        if cls.startswith('std::function') or cls.startswith('std::optional'):
            vs = [self.ev(a) for a in args]
            return vs[0] if len(vs) == 1 else Obj(self.fresh('fn'), t)
        if cls.startswith('std::') or cls.startswith('__gnu_cxx'):
            vs = [self.ev(a) for a in args]
            if len(vs) == 1 and isinstance(vs[0], (Ptr, Obj, Vec)):
                return vs[0]
            return Obj(self.fresh('std'), t, {'__args__': Tup(vs)})
        # repository class
        if cm in ('copy', 'move'):
            v = self.ev(args[0])
            if isinstance(v, Obj):
                o = Obj(v.key, v.cls, dict(v.fields))
                return o
            return v
        if self.quiet and (e.get('fn') or '').startswith(('fmt::', 'spdlog::')):
            for x in args:
                self.nolog += 1
                self.ev(x)
                self.nolog -= 1
            return Opq('ignored')
        vs = self.args(e)
        key = self.fresh('obj')
        o = Obj(('tmp',) + key, t, {})
        f = self.target(e)
        if f is not None and len(self.stack) < self.MAXDEPTH and (f.fk or f.q) not in self.noinline and not self.recursive(f):
            self.inline(f, vs, o, e)
        else:
            self.emit('ctor', e, name=e.get('fn'), args=[self.val(v) for v in vs], base=o.key)
        return o

    def ctor_vec(self, e, t):
        args = e['args']
        cm = e.get('cm')
        key = self.newvec(e)
        et = elem_type(t)
        vs = [self.ev(a) for a in args if not (a.get('defarg') or is_alloc(self.ty(a)))]
        if cm in ('copy', 'move') and vs and isinstance(vs[0], Vec):
            if cm == 'move':
                return vs[0]
            self.emit('vcopy', e, base=key, off=self.size_of(vs[0]), val=vs[0].base)
            return Vec(key, self.size_of(vs[0]), et)
        if e.get('stdlist') or (len(vs) == 1 and isinstance(vs[0], Tup)):
            items = vs[0].v if vs and isinstance(vs[0], Tup) else vs
            for i, v in enumerate(items):
                self.emit('st', e, base=key, off=P.c(i), val=to_p(v) if to_p(v) is not None else v)
            return Vec(key, P.c(len(items)), et)
        if not vs:
            return Vec(key, ZERO, et)
        p0 = to_p(vs[0])
        if p0 is not None:
            val = ZERO
            if len(vs) > 1:
                val = to_p(vs[1])
                if val is None:
                    val = vs[1]
            self.emit('vnew', e, base=key, val=val, off=p0)
            return Vec(key, p0, et)
        if isinstance(vs[0], Ptr) and len(vs) > 1 and isinstance(vs[1], Ptr) and isinstance(vs[0].off, P):
            n = self.distance(vs[0], vs[1], e)
            if n is not None:
                self.copy_loop(e, vs[0], n, Ptr(key, ZERO))
                return Vec(key, n, et)
        if isinstance(vs[0], Vec):
            return vs[0]
        if isinstance(vs[0], Str):
            return vs[0]
        self.log(e, 'vector ctor')
        return Vec(key, None, et)

    def newvec(self, e):
        self.uid += 1
        return ('loc', self.uid, f'tmp@{e.get("l", 0)}')

    def size_of(self, v):
        if isinstance(v, Vec):
            if v.size is not None:
                return v.size
            return P.a(('size', v.base))
        if isinstance(v, Tup):
            return P.c(len(v.v))
        return None

    def distance(self, a, b, n):
        """b - a for iterators/pointers."""
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base and isinstance(a.off, P) and isinstance(b.off, P):
                return b.off - a.off
            if isinstance(a.off, P) and isinstance(b.off, P):
                # oriented as first met, so that both directions are one quantity
                o = ORIENT.setdefault(frozenset((a.base, b.base)), (a.base, b.base))
                d = P.a(('dist',) + o)
                return (d if o[0] == a.base else -d) + b.off - a.off
        return None

    def target(self, e):
        fk = e.get('fk')
        if not fk:
            return None
        f = self.tu.by_fk.get(fk)
        if f is None:
            f = self.prog.by_fk.get(fk)
        if f is not None and f.body is None:
            return None
        return f

    def recursive(self, f):
        return any(s[0] is f for s in self.stack)

    def args(self, e):
        out = []
        pts = e.get('pt', [])
        for i, a in enumerate(e['args']):
            t = self.tu.types[pts[i]] if i < len(pts) and pts[i] >= 0 else ''
            if t.endswith('&') or t.endswith('&&'):
                l = self.lv(a)
                if l[0] == 'val':
                    out.append(l[1])
                else:
                    out.append(Alias(l))
            else:
                out.append(self.ev(a))
        return out

    def val(self, v):
        if isinstance(v, Alias):
            return self.get(v.lv)
        return v

    def functor(self, f, vs):
        """a function object given as a parameter, applied to numbers: some function of them"""
        if isinstance(f, Obj) and f.key[0] == 'p' and '(lambda' in f.cls:
            vs = [to_p(v) for v in vs]
            if vs and all(isinstance(v, P) for v in vs):
                return P.a(('call', 'param ' + str(f.key[1])) + tuple(vs))
        return None

    def file_log(self, e, fn):
        """a logger opened on a file by this function is how it writes that file"""
        nm = fn.rpartition('::')[2]
        if fn.startswith('spdlog::basic_logger_'):
            vs = [self.val(self.ev(a)) for a in e['args'][:2]]
            self.nfilelog += 1
            o = Obj(('filelog', self.nfilelog), 'spdlog::logger')
            self.emit('call', e, name='std::open log', args=vs[1:])
            return o
        if fn.startswith('spdlog::logger::') and 'obj' in e:
            o = self.val(self.ev(e['obj']))
            if not (isinstance(o, Obj) and o.key[0] == 'filelog'):
                return None
            vs = [o]
            for a in e['args']:
                if 'format_string' in self.ty(a) or 'basic_string' in self.ty(a) or 'string_view' in self.ty(a):
                    lits = [n['v'] for n in prog.nodes(a, 'str')]
                    lits += [self.literals[n['id']] for n in prog.nodes(a, 'ref') if n.get('id') in self.literals]
                    vs.append(Str(lits[0]) if len(lits) == 1 else Opq('format'))
                else:
                    vs.append(self.val(self.ev(a)))
            self.emit('call', e, name='std::log ' + nm, args=vs)
            return Opq('ignored')

    def call(self, e, want_lv=False):
        fn = e.get('fn', '')
        if self.quiet and fn.startswith(self.quiet):
            if fn.startswith('spdlog::'):
                r = self.file_log(e, fn)
                if r is not None:
                    return r
            for x in e.get('args', []):
                self.nolog += 1
                self.ev(x)
                self.nolog -= 1
            return Opq('ignored')
        # lambda / function object held in a variable
        if 'lam' in e and 'obj' in e:
            l = self.ev(e['obj'])
            vs = self.args(e)
            if isinstance(l, Lam):
                return self.call_lambda(l, vs, e, want_lv)
            r = self.functor(l, [self.val(v) for v in vs]) if strip_t(self.ty(e)) == 'bool' else None
            if r is not None:
                return C(c_not(mk_eq(r)))
            return self.opq(e, 'lambda call')
        h = self.hooks.get(fn)
        if h:
            r = h(self, e)
            if r is not NotImplemented:
                return r
        import models
        r = models.model(self, e, fn, want_lv)
        if r is not NotImplemented:
            return r
        f = self.target(e)
        if f is not None and len(self.stack) < self.MAXDEPTH and (f.fk or f.q) not in self.noinline and not self.recursive(f):
            this = None
            if 'obj' in e:
                this = self.ev(e['obj'])
                if isinstance(this, Ptr):
                    this = self.deref_obj(this, e['obj'])
            vs = self.args(e)
            if 'obj' in e and not isinstance(this, Obj):
                pass
            else:
                return self.inline(f, vs, this, e, want_lv)
        # external / not inlined
        if 'obj' in e:
            ov = self.ev(e['obj'])
        else:
            ov = None
        raw = self.args(e)
        vs = [self.val(v) for v in raw]
        if isinstance(ov, Lam):
            return self.call_lambda(ov, vs, e, want_lv)
        if 'calleeE' in e:
            c = self.ev(e['calleeE'])
            if isinstance(c, Lam):
                return self.call_lambda(c, vs, e, want_lv)
        ef = self.emit('call', e, name=fn, args=([ov] if ov is not None else []) + vs)
        self.given(e, fn, raw, vs)
        if not is_pure(fn):
            ck0 = (fn,) + tuple(argkey(x) for x in ([ov] if ov is not None else []) + vs if not isinstance(x, (Opq, Lam)))
            self.callno[ck0] = self.callno.get(ck0, 0) + 1
            self.havoc_args(e, raw, ck0)
        t = self.ty(e)
        if strip_t(t) == 'void':
            return Opq('void')
        ck = (fn,) + tuple(argkey(x) for x in ([ov] if ov is not None else []) + vs if not isinstance(x, (Opq, Lam)))
        ef.tag = ck
        if is_pure(fn):
            k = tuple(argkey(x) for x in ([ov] if ov is not None else []) + vs)
            return self.default_value(('ret', fn, k), t) if not (is_int(t) or strip_t(t) in ('double', 'float')) else P.a(('call', fn) + k)
        return self.default_value(('ret',) + ck + (P.c(self.callno.get(ck, 0)),) + self.loopdep(), t)

    def ev_call(self, e):
        return self.val(self.call(e))

    def given(self, e, fn, raw, vs):
        """numbers handed over through a pointer to a variable"""
        if not fn.startswith('MPI_'):
            return
        pts = e.get('pt', [])
        for i, v in enumerate(raw):
            t = self.tu.types[pts[i]] if i < len(pts) and pts[i] >= 0 else ''
            if not (isinstance(v, Ptr) and v.base[0] == 'addr' and isinstance(v.off, P) and v.off.is_zero()):
                continue
            lv = ADDR[v.base[1]]
            if lv[0] not in ('var', 'fld', 'tup') or not (t.startswith('const void') or fn == 'MPI_Bcast' and i == 0):
                continue
            x = to_p(self.get(lv)) if isinstance(self.get(lv), (P, C)) else None
            if x is None:
                continue
            if fn == 'MPI_Bcast':
                # what the other processes hold does not matter
                root = to_p(vs[3])
                ranks = {a for a in x.free() if ATOMS[a][0] == 'out' and 'MPI_Comm_rank' in ATOMS[a][:4]}
                if root is None or len(ranks) != 1:
                    continue
                self.pc.append(mk_eq(P({((next(iter(ranks)), 1),): Fraction(1)}) - root))
                self.emit('call', e, name=fn + ' sends', args=[x])
                self.pc.pop()
            else:
                self.emit('call', e, name=fn + ' sends', args=[P.c(i), x])

    def havoc_args(self, e, raw, ck=()):
        pts = e.get('pt', [])
        for i, v in enumerate(raw):
            t = self.tu.types[pts[i]] if i < len(pts) and pts[i] >= 0 else ''
            lv = None
            if isinstance(v, Alias) and t.endswith('&') and not t.startswith('const ') and not t.endswith('&&'):
                lv = v.lv
            elif isinstance(v, Ptr) and v.base[0] == 'addr' and v.off.is_zero() and not t.startswith('const '):
                lv = ADDR[v.base[1]]
            if lv is None or lv[0] not in ('var', 'fld', 'tup'):
                continue
            cur = self.get(lv)
            self.uid += 1
            if isinstance(cur, (P, C)):
                self.setq(lv, P.a(('out', P.c(i), P.c(self.callno.get(ck, 0))) + ck + self.loopdep()))
            elif isinstance(cur, Vec):
                self.setq(lv, Vec(cur.base, P.a(('out', P.c(i), P.c(self.callno.get(ck, 0))) + ck + self.loopdep()), cur.et))

    def setq(self, lv, v):
        import models
        models.setq(self, lv, v)

    def call_lambda(self, l, vs, e, want_lv=False):
        if l.node is None:
            # reference to function
            ne = dict(l.fn)
            f = None
            fk = ne.get('fk')
            if fk:
                f = l.tu.by_fk.get(fk) or self.prog.by_fk.get(fk)
            if f is not None and f.body is not None and not self.recursive(f) and len(self.stack) < self.MAXDEPTH:
                return self.inline(f, vs, None, e, want_lv)
            self.emit('call', e, name=ne.get('fn'), args=[self.val(v) for v in vs])
            return self.opq(e, 'function pointer')
        specs = l.node['spec']
        if not specs:
            return self.opq(e, 'lambda without body')
        sp = specs[0]
        if len(specs) > 1:
            # pick by arity / parameter types of the resolved callee
            want = [self.tu.types[t] if t >= 0 else '' for t in e.get('pt', [])]
            for s in specs:
                if len(s['params']) == len(vs) and [l.tu.types[p['t']] for p in s['params']] == want:
                    sp = s
                    break
        import prog as _p
        f = _p.Fn(sp, l.tu)
        host = self.stack[-1][0] if self.stack else None
        return self.inline(f, vs, l.this, e, want_lv, lam=True)

    def inline(self, f, vs, this, e, want_lv=False, lam=False):
        sav = (self.tu, self.this, self.rets, self.loopsnaps, self.brksnaps, len(self.pc))
        sav2 = (self.inst, self.base_pc, self.base_loops, self.fnkeys)
        self.ninst += 1
        self.inst = self.ninst
        self.base_pc = len(self.pc)
        self.base_loops = len(self.loops)
        self.fnkeys = set(self.env)
        line = e.get('l', 0)
        self.tu = f.tu
        if not lam:
            self.this = this
        elif this is not None:
            self.this = this
        self.rets = []
        self.loopsnaps = []
        self.brksnaps = []
        self.stack.append((f, line))
        byref = f.tu.types[f.d['rt']].endswith('&') if f.d.get('rt', -1) >= 0 else False
        try:
            for p, v in zip(f.params, list(vs) + [None] * len(f.params)):
                key = self.vk(p['id'])
                t = f.tu.types[p['t']]
                self.vtypes[key] = t
                if v is None:
                    self.env[key] = Opq('missing arg')
                elif t.endswith('&'):
                    self.env[key] = v if isinstance(v, Alias) else v
                else:
                    v = self.val(v)
                    if isinstance(v, Vec) and t.startswith('std::vector'):
                        pass
                    if isinstance(v, Obj):
                        v = Obj(v.key, v.cls, dict(v.fields))
                    self.env[key] = v
            if f.d.get('ctor'):
                self.ctor_inits(f, this)
            r = self.run_body(f, byref)
            if not isinstance(r, (Alias, Lam, Obj, Ptr, Tup, Span)):
                for p in f.params:
                    self.env.pop(self.vk(p['id']), None)
        finally:
            self.stack.pop()
            self.tu, self.this, self.rets, self.loopsnaps, self.brksnaps, n = sav
            self.inst, self.base_pc, self.base_loops, self.fnkeys = sav2
            del self.pc[n:]
        return r

    def ctor_inits(self, f, this):
        for i in f.d.get('inits', []):
            if i.get('deleg'):
                x = i['e']
                if x and x['k'] == 'ctor':
                    vs = self.args(x)
                    g = self.target(x)
                    if g is not None:
                        self.inline(g, vs, this, x)
                continue
            if 'field' in i:
                v = self.ev(i['e'])
                if isinstance(v, Obj) and not i.get('written'):
                    pass
                if isinstance(v, Vec) and v.base[0] == 'loc' and str(v.base[2]).startswith('tmp@'):
                    nb = ('fld', this.key, i['field'])
                    self.rename_base(v.base, nb)
                    v = Vec(nb, v.size, v.et)
                this.fields[i['field']] = v

    def rename_base(self, old, new):
        for e in self.eff:
            if e.base == old:
                e.base = new
            elif isinstance(e.base, tuple) and e.base[0] == 'fld' and e.base[1] == ('each', old):
                e.base = each(new, e.base[2])
            if e.cap:
                e.cap = tuple((new if b == old else b, u) for b, u in e.cap)
            if e.pre:
                e.pre = tuple((new if b == old else b, u, d) for b, u, d in e.pre)

    def run_body(self, f, byref=False):
        self.rets = rets = []
        before = None
        flow = self.block_or_stmt(f.body) if f.body else Flow()
        # by-reference updates made before conditional returns
        val = None
        for c, v, snap in reversed(rets):
            if snap is not None:
                self.merge_snap(c, snap, self.fnkeys or ())
        for c, v, snap in reversed(rets):
            if v is None:
                continue
            if val is None:
                val = v
            else:
                if isinstance(v, Alias) or isinstance(val, Alias):
                    v2, val2 = self.val(v), self.val(val)
                    val = ite(c, v2, val2)
                else:
                    val = ite(c, v, val)
        if val is None:
            return Opq('void')
        return val

    # ---------------------------------------------------------- environment
    def fork(self):
        """copy of env with one level of object copying"""
        return dict(self.env)

    def merge(self, c, a, b):
        """self.env := c ? a : b   (b is self.env or will be)"""
        r = dict(b)
        for k, va in a.items():
            vb = b.get(k)
            if vb is va:
                continue
            if k not in b:
                r[k] = va
                continue
            if isinstance(va, Alias) or isinstance(vb, Alias):
                if isinstance(va, Alias) and isinstance(vb, Alias) and va.lv == vb.lv:
                    continue
                r[k] = Opq('alias merge')
                continue
            if same(va, vb):
                continue
            if isinstance(va, Vec) and isinstance(vb, Vec) and va.base == vb.base:
                sa, sb = self.size_of(va), self.size_of(vb)
                r[k] = Vec(va.base, ite(c, sa, sb) if sa is not None and sb is not None else None, va.et)
                continue
            r[k] = ite(c, va, vb)
        self.env = r

    # ----------------------------------------------------------- statements
    def block_or_stmt(self, s):
        if s is None:
            return Flow()
        return self.stmt(s)

    def seq(self, stmts):
        fl = Flow()
        npc = len(self.pc)
        for s in stmts:
            x = fl.any()
            if x is True:
                break
            f = self.stmt(s)
            if f is None:
                continue
            fl.ret = c_or(fl.ret, f.ret)
            fl.brk = c_or(fl.brk, f.brk)
            fl.cont = c_or(fl.cont, f.cont)
            fl.thr = c_or(fl.thr, f.thr)
            fa = f.any()
            if fa is not False and fa is not True:
                self.pc.append(c_not(fa))
        del self.pc[npc:]
        return fl

    def local_guard(self, depth):
        return c_and(*self.pc[depth:])

    def stmt(self, s):
        k = s['k']
        m = getattr(self, 'st_' + k, None)
        if m:
            return m(s)
        # expression statement
        self.ev(s)
        if k == 'throw':
            return Flow(thr=True)
        if k == 'call' and s.get('fn') in ('abort', 'exit', 'std::abort', 'std::exit'):
            return Flow(thr=True)
        return None

    def st_block(self, s):
        return self.seq(s['s'])

    def st_null_stmt(self, s):
        return None

    def st_label(self, s):
        return self.stmt(s['body'])

    def st_goto(self, s):
        self.log(s, 'goto')
        return None

    def st_otherstmt(self, s):
        self.log(s, 'stmt ' + s.get('cls', ''))
        return None

    def st_decl(self, s):
        for v in s['vars']:
            self.declare(v)

    def locname(self, v):
        return ('loc', v['id'], v['n'], self.inst)

    def declare(self, v, val=None):
        key = self.vk(v['id'])
        if v.get('static'):
            key2 = ('static', v['n'], v.get('l'))
        t = self.ty(v)
        self.vtypes[key] = t
        if isinstance(v.get('init'), dict) and ('basic_string' in t or 'string_view' in t or t.endswith('char *')) and 'const' in t:
            lits = prog.nodes(v['init'], 'str')
            if len(lits) == 1 and not prog.nodes(v['init'], 'ref', 'bin', 'call'):
                self.literals[v['id']] = lits[0]['v']
        if 'bind' in v:
            x = val if val is not None else (self.ev_ref_init(v, t))
            self.bind(v, x, t)
            return
        if val is None:
            if 'init' not in v:
                if t.startswith('std::vector') or t.startswith('std::array'):
                    self.env[key] = Vec(self.locname(v), ZERO if t.startswith('std::vector') else None, elem_type(t))
                elif t.endswith(']'):
                    self.env[key] = Ptr(self.locname(v), ZERO)
                else:
                    self.env[key] = P.a(('uninit', v['n'], v['id']))
                return
            if t.endswith('&'):
                l = self.lv(v['init'])
                self.env[key] = l[1] if l[0] == 'val' else Alias(l)
                return
            val = self.ev(v['init'])
        if isinstance(val, Vec) and not t.endswith('&') and not t.endswith('*'):
            # name the local container
            nb = self.locname(v)
            if val.base[0] == 'loc' and str(val.base[2]).startswith('tmp@'):
                self.rename_base(val.base, nb)
                val = Vec(nb, val.size, val.et)
            elif v.get('init', {}).get('k') != 'call' and val.base != nb and val.base[0] != 'loc':
                self.emit('vcopy', v, base=nb, off=self.size_of(val), val=val.base)
                val = Vec(nb, self.size_of(val), val.et)
        if isinstance(val, Opq) and (is_int(t) or strip_t(t) in ('double', 'float')):
            val = P.a(('opq', val.why, val.id) + self.loopdep())
        if isinstance(val, P) and t.startswith('std::vector'):
            val = Vec(self.locname(v), None, elem_type(t))
        if t.endswith(']') and isinstance(val, Tup):
            b = self.locname(v)
            for i, x in enumerate(val.v):
                self.emit('st', v, base=b, off=P.c(i), val=to_p(x) if to_p(x) is not None else x)
            val = Ptr(b, ZERO)
        if isinstance(val, Obj) and not t.endswith('&') and not t.endswith('*') and val.key and val.key[0] == 'el':
            ms = self.members(t)
            if ms:
                val = Obj(self.locname(v), val.cls or strip_t(t), {m: self.get(('fld', val, m, '')) for m in ms} if strip_t(t).startswith('std::') else {m['n']: self.get(('fld', val, m['n'], self.tu.types[m['t']])) for m in self.record(strip_t(t))['fields']})
        self.env[key] = val

    def ev_ref_init(self, v, t):
        if t.endswith('&'):
            l = self.lv(v['init'])
            return self.get(l) if l[0] != 'val' else l[1]
        return self.ev(v['init'])

    def bind(self, v, x, t):
        for i, b in enumerate(v['bind']):
            key = self.vk(b['id'])
            self.vtypes[key] = self.ty(b)
            if isinstance(x, Tup) and i < len(x.v):
                if t.endswith('&'):
                    self.env[key] = Alias(('tup', x, i))
                else:
                    self.env[key] = x.v[i]
            elif isinstance(x, Obj):
                rec = self.record(strip_t(x.cls)) if x.cls else None
                name = rec['fields'][i]['n'] if rec and i < len(rec['fields']) else ('first', 'second')[i] if i < 2 and 'pair' in x.cls else f'#{i}'
                val = self.get(('fld', x, name, self.ty(b)))
                self.env[key] = val
            else:
                self.env[key] = self.default_value(('loc', b['id'], b['n']), self.ty(b))
                self.log(v, 'structured binding')

    def st_if(self, s):
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('constexpr'):
            b = s['then'] if s.get('taken') == 'then' else s['else']
            if 'taken' in s:
                return self.stmt(b) if b else None
        if s.get('cvar'):
            self.stmt(s['cvar'])
        c = to_c(self.ev(s['c']))
        if c is None:
            c = ('opqc', self.fresh('c'))
            self.log(s, 'if condition')
        return self.branch(c, (lambda: self.stmt(s['then'])) if s['then'] else None, (lambda: self.stmt(s['else'])) if s['else'] else None)

    def branch(self, c, then, other):
        if c is True:
            return then() if then else None
        if c is False:
            return other() if other else None
        sav = self.fork()
        objs = self.obj_snapshot()
        self.pc.append(c)
        self.forks.append((sav, objs))
        fa = (then() if then else None) or Flow()
        self.forks.pop()
        ea = self.env
        oa = self.obj_capture(objs)
        self.env = sav
        c = self.pc[-1]
        self.pc[-1] = c_not(c)
        self.forks.append((ea, {i: (o, oa[i]) for i, (o, f) in objs.items()}))
        fb = (other() if other else None) or Flow()
        self.forks.pop()
        c = c_not(self.pc.pop())
        ra, rb = fa.any(), fb.any()
        if ra is True and rb is not True:
            self.obj_restore_only(objs, oa, c, take='b')
        elif rb is True and ra is not True:
            self.env, tmp = ea, self.env
            self.obj_restore_only(objs, oa, c, take='a')
        else:
            self.merge(c, ea, self.env)
            self.obj_restore_only(objs, oa, c, take='m')
        f = Flow()
        for a in ('ret', 'brk', 'cont', 'thr'):
            setattr(f, a, c_or(c_and(c, getattr(fa, a)), c_and(c_not(c), getattr(fb, a))))
        return f

    # objects are mutable: snapshot the fields of all reachable objects
    def reach(self):
        out = {}
        st = [v for v in self.env.values()]
        if self.this is not None:
            st.append(self.this)
        while st:
            v = st.pop()
            if isinstance(v, Obj):
                if id(v) in out:
                    continue
                out[id(v)] = v
                st.extend(v.fields.values())
            elif isinstance(v, Alias):
                if v.lv[0] == 'fld':
                    st.append(v.lv[1])
                elif v.lv[0] == 'tup':
                    st.append(v.lv[1])
            elif isinstance(v, Tup):
                if id(v) in out:
                    continue
                out[id(v)] = v
                st.extend(v.v)
            elif isinstance(v, Lam) and isinstance(v.this, Obj):
                st.append(v.this)
        return out

    def obj_snapshot(self):
        return {i: (o, dict(o.fields) if isinstance(o, Obj) else list(o.v)) for i, o in self.reach().items()}

    def obj_capture(self, snap):
        """capture current, restore to snapshot"""
        cap = {}
        for i, (o, f) in snap.items():
            if isinstance(o, Obj):
                cap[i] = dict(o.fields)
                o.fields.clear()
                o.fields.update(f)
            else:
                cap[i] = list(o.v)
                o.v[:] = f
        return cap

    def obj_restore_only(self, snap, cap, c, take):
        for i, (o, f) in snap.items():
            a = cap[i]
            if isinstance(o, Obj):
                b = dict(o.fields)
                if take == 'b':
                    continue
                if take == 'a':
                    o.fields.clear()
                    o.fields.update(a)
                    continue
                for k in set(a) | set(b):
                    va, vb = a.get(k), b.get(k)
                    if va is None or vb is None:
                        o.fields[k] = va if vb is None else vb
                        continue
                    if va is vb or same(va, vb):
                        continue
                    if isinstance(va, Vec) and isinstance(vb, Vec):
                        o.fields[k] = ite(c, va, vb) if va.base == vb.base else Vec(va.base, None, va.et)
                        continue
                    if isinstance(va, Alias) or isinstance(vb, Alias):
                        o.fields[k] = Opq('alias')
                        continue
                    o.fields[k] = ite(c, va, vb)
            else:
                if take == 'b':
                    continue
                if take == 'a':
                    o.v[:] = a
                    continue
                for j in range(min(len(a), len(o.v))):
                    if not same(a[j], o.v[j]):
                        o.v[j] = ite(c, a[j], o.v[j]) if not isinstance(a[j], Alias) else Opq('alias')

    def st_switch(self, s):
        v = to_p(self.ev(s['c']))
        body = s['body']
        groups = []          # (labels or 'default', [statements])
        for x in (body['s'] if body['k'] == 'block' else [body]):
            labs = []
            while x is not None and x['k'] in ('case', 'default'):
                labs.append(x)
                x = x.get('body')
            if labs:
                groups.append((labs, []))
            elif not groups:
                if x['k'] != 'decl':
                    self.log(s, 'switch')
                continue
            if x is not None:
                groups[-1][1].append(x)
        if v is None:
            self.log(s, 'switch')
            v = self.opq_p(s, 'switch')
        conds, alls = [], []
        for labs, _ in groups:
            c = False
            for lab in labs:
                if lab['k'] == 'case':
                    w = to_p(self.ev(lab['v'])) if isinstance(lab.get('v'), dict) else P.c(lab['v'])
                    c = c_or(c, mk_eq(v - w) if w is not None else ('opqc', self.fresh('c')))
            alls.append(c)
        for (labs, _), c in zip(groups, alls):
            if any(lab['k'] == 'default' for lab in labs):
                c = c_or(c, c_not(c_or(*alls)))
            conds.append(c)
        npc = len(self.pc)
        self.brksnaps.append([])
        keys = set(self.env)
        out = []

        def run(k):
            """groups k.. : entered when the condition of k holds, or falls through"""
            if k == len(groups):
                return None

            def body():
                fl = Flow()
                g = k
                n0 = len(self.pc)
                while g < len(groups):
                    f = self.seq(groups[g][1]) or Flow()
                    for a in ('ret', 'brk', 'cont', 'thr'):
                        setattr(fl, a, c_or(getattr(fl, a), getattr(f, a)))
                    fa = f.any()
                    if fa is True:
                        break
                    if fa is not False:
                        self.pc.append(c_not(fa))
                    g += 1
                del self.pc[n0:]
                # what follows a break is reached again after the switch
                return fl
            return self.branch(conds[k], body, lambda: run(k + 1))
        fl = run(0) or Flow()
        snaps = self.brksnaps.pop()
        for sn in reversed(snaps):
            self.merge_snap(c_and(*sn[1][npc:]), sn, keys)
        fl.brk = False
        return fl

    def st_case(self, s):
        return self.stmt(s['body'])

    st_default = st_case

    def st_try(self, s):
        f = self.stmt(s['body'])
        for h in s['handlers']:
            sav = self.fork()
            self.pc.append(('exc', self.fresh('x')))
            if 'var' in h:
                self.env[self.vk(h['var']['id'])] = Opq('exception')
            self.stmt(h['body'])
            self.pc.pop()
            self.env = sav
        return f

    def st_ret(self, s):
        v = None
        if 'e' in s and s['e']:
            f = self.stack[-1][0]
            rt = f.tu.types[f.d['rt']] if f.d.get('rt', -1) >= 0 else ''
            if rt.endswith('&'):
                l = self.lv(s['e'])
                v = l[1] if l[0] == 'val' else Alias(l)
            else:
                v = self.ev(s['e'])
                if s['e'] and s['e']['k'] == 'throw':
                    return Flow(thr=True)
        if self.rets is not None:
            inloop = len(self.loops) > self.base_loops
            g = c_and(*self.pc[self.base_pc:])
            if inloop:
                g = ('loopret', self.fresh('r'))
                self.retraw[g] = (list(self.pc[self.base_pc:]), self.val(v) if v is not None else None, 0)
                if v is not None:
                    vv = self.val(v)
                    v = self.opq_p(s, 'returned from a loop') if isinstance(vv, P) else (v if not isinstance(vv, (Ptr, C)) else (C(('opqc', self.fresh('c'))) if isinstance(vv, C) else Opq('returned from a loop')))
            snap = None
            if g is not True and self.fnkeys is not None:
                snap = (0, [], {k: self.env[k] for k in self.fnkeys if k in self.env}, self.obj_snapshot())
            self.rets.append((g, v, snap))
        self.emit('ret', s, name='return', args=[self.val(v)] if v is not None else [])
        return Flow(ret=True)

    def snap(self):
        return (len(self.pc), list(self.pc), dict(self.env), self.obj_snapshot())

    def merge_snap(self, g, snap, keys):
        """the state of a path that left here under condition g joins the current state"""
        _, _, env, objs = snap
        self.merge(g, {k: v for k, v in env.items() if k in keys}, self.env)
        for o, f in objs.values():
            if isinstance(o, Obj):
                for k, v in f.items():
                    w = o.fields.get(k)
                    if w is None or w is v or same(v, w):
                        continue
                    o.fields[k] = Opq('alias') if isinstance(v, Alias) or isinstance(w, Alias) else ite(g, v, w)
            else:
                for j in range(min(len(f), len(o.v))):
                    if f[j] is not o.v[j] and not same(f[j], o.v[j]):
                        o.v[j] = Opq('alias') if isinstance(f[j], Alias) or isinstance(o.v[j], Alias) else ite(g, f[j], o.v[j])

    def st_break(self, s):
        if self.brksnaps:
            self.brksnaps[-1].append(self.snap())
        return Flow(brk=True)

    def st_cont(self, s):
        if self.loopsnaps:
            self.loopsnaps[-1].append(self.snap())
        return Flow(cont=True)

    def st_omp(self, s):
        self.emit('omp', s, name=s['dir'], args=[])
        if s.get('body'):
            return self.stmt(s['body'])

    # -------------------------------------------------------------- loops
    def st_for(self, s):
        import loops
        return loops.do_for(self, s)

    def st_while(self, s):
        import loops
        return loops.do_while(self, s)

    def st_do(self, s):
        import loops
        return loops.do_do(self, s)

    def st_rfor(self, s):
        import loops
        return loops.do_rfor(self, s)

    def copy_loop(self, n, src, cnt, dst, f=None):
        import loops
        return loops.synth(self, n, cnt, lambda i: self.store(n, dst.base, dst.off + i, f(i) if f else self.load(src.base, src.off + i, '')))

    # ---------------------------------------------------------------- entry
    def run(self, f, names=None):
        """Analyse function f with symbolic parameters named after its parameters."""
        self.tu = f.tu
        self.stack = [(f, f.l)]
        if f.d.get('cls') and not f.d.get('static'):
            self.this = Obj(('this',), f.d.get('cls'))
            self.this.cls = f.tu.types[f.d['clst']] if 'clst' in f.d else f.d.get('cls')
        for i, p in enumerate(f.params):
            key = self.vk(p['id'])
            t = f.tu.types[p['t']]
            self.vtypes[key] = t
            nm = (names[i] if names and i < len(names) and names[i] else p['n']) or f'arg{i}'
            v = self.default_value(('p', nm), t)
            s = strip_t(t)
            if t.endswith('&') and isinstance(v, P) and not t.startswith('const '):
                self.env[key] = v
            self.env[key] = v
        if f.d.get('ctor'):
            self.ctor_inits(f, self.this)
        self.fnkeys = set(self.env)
        self.retval = self.run_body(f)
        return self


ADDR = {}


def addr_key(l):
    k = repr((l[0], l[1] if l[0] == 'var' else id(l[1]), l[2] if len(l) > 2 and not isinstance(l[2], P) else ''))
    ADDR[k] = l
    return k


def elem_type(t):
    i = t.find('<')
    if i < 0:
        return ''
    d = 0
    out = ''
    for ch in t[i + 1:]:
        if ch == '<':
            d += 1
        if ch == '>':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            break
        out += ch
    return out.strip()


def is_alloc(t):
    return 'allocator' in t and 'vector' not in t


PURE = ('std::sqrt', 'sqrt', 'std::abs', 'std::fabs', 'fabs', 'std::pow', 'pow', 'std::exp', 'exp', 'std::log', 'log', 'std::conj',
        'std::real', 'std::imag', 'std::isnan', 'std::isfinite', 'std::ceil', 'std::floor', 'ceil', 'floor', 'std::numeric_limits',
        'isalpha', 'isdigit', 'isspace', 'isalnum', 'isupper', 'islower', 'toupper', 'tolower', 'std::isalpha', 'std::isdigit', 'std::isspace',
        'std::toupper', 'std::tolower', 'std::sin', 'std::cos', 'std::hypot', 'std::cbrt', 'std::fmod', 'std::round', 'std::trunc', 'std::lround')


def is_pure(fn):
    return fn in PURE or fn.startswith('std::numeric_limits')


def argkey(v):
    if isinstance(v, P):
        return v
    if isinstance(v, C):
        return to_p(v)
    if isinstance(v, Ptr):
        return ('ptr', v.base, v.off)
    if isinstance(v, Vec):
        return ('vec', v.base)
    if isinstance(v, Obj):
        return ('obj', v.key)
    if isinstance(v, Str):
        return ('str', v.s)
    if isinstance(v, Span):
        return ('span', v.ptr.base)
    if isinstance(v, Tup):
        return ('tup',) + tuple(argkey(x) for x in v.v)
    return ('?', id(v))
