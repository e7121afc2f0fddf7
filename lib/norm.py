"""Normal form of the effects of a function and comparison of two normal forms.

An entry says: for all values of `loops` satisfying `cond`,
    base[off]  =  val      (kind 'st')      or      base[off] += val   (kind 'acc').
Temporaries (local buffers) are eliminated by forward substitution, loops are
shifted to start at 0, accumulation loops become `sum` terms, a full store
followed by accumulation into the same region is merged, bound indices are
renamed canonically.
"""
import copy
import itertools
import re
from fractions import Fraction
from poly import P, ATOMS, atom_id, atom_free, show, show_base, show_cond, map_nested, REBUILD
import sym
from sym import (Loop, Vec, Ptr, Tup, Obj, Opq, C, Str, Span, Lam, ZERO, ONE, c_and, c_or, c_not, c_subst, c_free, mk_sum, mk_ite, to_p)


class Entry:
    __slots__ = ('kind', 'base', 'off', 'val', 'cond', 'loops', 'fn', 'line', 'exact', 'epoch', 'seq', 'w', 'ordered')

    def __init__(self, kind, base, off, val, cond, loops, fn, line):
        self.kind, self.base, self.off, self.val, self.cond, self.loops, self.fn, self.line = kind, base, off, val, cond, list(loops), fn, line
        self.exact = True
        self.epoch = 0
        self.seq = 0
        self.w = ()
        self.ordered = True     # a call that may change something: not interchangeable with its own repetitions

    @property
    def where(self):
        return f'{self.fn.rel}:{self.line} ({self.fn.q})' if self.fn else '?'

    def offs(self):
        return self.off if isinstance(self.off, tuple) else (self.off,)

    def show(self):
        o = ', '.join(show(x) for x in self.offs())
        if self.kind == 'call':
            s = f'{self.base[1]}({o})'
        else:
            s = f'{show_base(self.base)}[{o}] {"=" if self.kind == "st" else "+="} {show(self.val) if isinstance(self.val, P) else sym.show_v(self.val)}'
        if self.loops:
            s += ' for ' + ', '.join(f'{sh(l.atom)} in [{show(l.lo)},{show(l.hi)})' for l in self.loops)
        if self.cond is not True:
            s += ' if ' + show_cond(self.cond)
        return s


def sh(a):
    return str(ATOMS[a][1])


def is_temp(b):
    if isinstance(b, tuple) and b and b[0] == 'fld' and isinstance(b[1], tuple) and b[1][0] == 'each':
        b = b[1][1]
    return isinstance(b, tuple) and b and b[0] in ('loc', 'new')


BADTAGS = {'opq', 'uninit', 'phi', 'iter', 'lastof', 'brk', 'partialsum', 'prefix', 'trip', 'lastidx', 'scanin', 'opqc'}


def bad_atoms(x, out=None, seen=None):
    """opaque terms reachable in a value / condition"""
    if out is None:
        out = set()
    if isinstance(x, P):
        for a in x.free():
            if ATOMS[a][0] in BADTAGS:
                out.add(ATOMS[a][0])
            _badcond(ATOMS[a], out)
    elif isinstance(x, (tuple, frozenset)):
        _badcond(x, out)
        for y in x:
            if isinstance(y, (P, tuple, frozenset)):
                bad_atoms(y, out)
    elif isinstance(x, C):
        bad_atoms(x.c, out)
    elif isinstance(x, Opq):
        out.add('opq')
    elif isinstance(x, Ptr):
        bad_atoms(x.off, out)
    elif isinstance(x, Tup):
        for y in x.v:
            bad_atoms(y, out)
    return out


def _badcond(a, out):
    if isinstance(a, (tuple, frozenset)):
        if isinstance(a, tuple) and a and isinstance(a[0], str) and a[0] in ('opqc', 'loopret', 'loopexit', 'exc'):
            out.add(a[0])
        for y in a:
            if isinstance(y, (tuple, frozenset)):
                _badcond(y, out)


def coeffs(p, ids):
    """p = rest + sum_k s_k * x_k for linear x_k in ids; None when not linear"""
    s = {i: P() for i in ids}
    rest = P()
    for m, c in p.t.items():
        hit = [(a, q) for a, q in m if a in s]
        if not hit:
            if any(atom_free(a) & s.keys() for a, _ in m):
                return None, None
            rest = rest + P({m: c})
            continue
        if len(hit) > 1 or hit[0][1] != 1:
            return None, None
        k = hit[0][0]
        mm = tuple(x for x in m if x[0] != k)
        if any(atom_free(a) & s.keys() for a, _ in mm):
            return None, None
        s[k] = s[k] + P({mm: c})
    return s, rest


def mono_div(m, d):
    """monomial m / d or None"""
    x = dict(m)
    for a, q in d:
        if x.get(a, 0) < q:
            return None
        x[a] -= q
        if not x[a]:
            del x[a]
    return tuple(sorted(x.items()))


def solve_offset(doff, loops, loff, nested=False):
    """find values x_k for the loop indices such that doff[x] == loff"""
    ids = [l.atom for l in loops]
    if isinstance(doff, tuple) or isinstance(loff, tuple):
        return None
    s, rest = coeffs(doff, ids)
    if s is None:
        return None
    strides = []
    for i in ids:
        p = s[i]
        if p.is_zero() or len(p.t) != 1:
            return None
        (m, c), = p.t.items()
        strides.append((i, m, c))
    d = loff - rest
    x = {i: P() for i in ids}
    # first by symbolic degree, then by numeric size
    strides.sort(key=lambda t: (-sum(q for _, q in t[1]), -abs(t[2])))
    for m, c in d.t.items():
        done = False
        for i, sm, sc in strides:
            q = mono_div(m, sm)
            if q is None:
                continue
            k = c / sc
            if not sm and abs(sc) > 1 and k.denominator != 1:
                # constant stride: split integer quotient / remainder
                if not q:
                    kk = int(k)
                    if kk:
                        x[i] = x[i] + P({q: Fraction(kk)})
                        c = c - kk * sc
                    continue
                continue
            x[i] = x[i] + P({q: k})
            done = True
            break
        if not done:
            return None
    return x


def reads_of(e):
    out = []

    def go(x):
        if isinstance(x, P):
            for k in x.free():
                a = ATOMS[k]
                if a[0] == 'ld':
                    out.append((a[1][1] if a[1][0] == 'at' else a[1], a[2]))
        elif isinstance(x, C):
            go(x.c)
        elif isinstance(x, Ptr):
            go(x.off)
        elif isinstance(x, (tuple, frozenset, list)):
            for y in x:
                go(y)
        elif isinstance(x, Tup):
            for y in x.v:
                go(y)
    go(e.off)
    go(e.val)
    go(e.guards)
    if e.args:
        go(e.args)
    for l in e.loops:
        go(l.lo)
        go(l.hi)
        go(l.cond)
    return set(out)


class Split(Exception):
    """the loop `atom` runs over a flattened index space: parts = [(extent, stride)], fastest first"""
    def __init__(self, atom, parts):
        self.atom, self.parts = atom, parts


def split_p(p, atom, repl, loops):
    """replace the bound index `atom` of any sum in p by several loops"""
    if not isinstance(p, P) or atom not in _bound(p):
        return p
    r = P()
    for m, c in p.t.items():
        q = P({(): c})
        for a, n in m:
            v = _split_atom(a, atom, repl, loops)
            for _ in range(n):
                q = q * v
        r = r + q
    return r


def _bound(p):
    s = set()
    for x in p.free():
        if ATOMS[x][0] == 'sum':
            s |= {l[0] for l in ATOMS[x][1]}
    return s


def _split_atom(i, atom, repl, loops):
    one = P({((i, 1),): Fraction(1)})
    if atom not in _bound(one):
        return one
    a = ATOMS[i]
    if a[0] == 'sum':
        ls = []
        for l in a[1]:
            if l[0] == atom:
                ls += [(x.atom, x.lo, x.hi, True) for x in loops[:-1]] + [(loops[-1].atom, loops[-1].lo, loops[-1].hi, l[3])]
            else:
                ls.append(l)
        mp = {atom: repl}
        ls = [(l[0], l[1].subst(mp), l[2].subst(mp), c_subst(l[3], mp)) for l in ls]
        body = split_p(a[2], atom, repl, loops).subst(mp)
        return sym.rebuild_sum(('sum', tuple(ls), body))
    b = map_nested(a, lambda p: split_p(p, atom, repl, loops))
    f = REBUILD.get(b[0])
    return f(b) if f else P.a(b)


class Normalizer:
    def __init__(self, ex, opts=None):
        self.ex = ex
        self.defs = {}          # temp base -> list of Entry (in order)
        self.out = []           # entries for non-temp bases, and unresolved temps
        self.calls = []
        self.unres = []         # reasons
        self.killed = set()     # temps written by unknown code
        self.pc_names = {}
        self.opts = opts or {}
        self.used_temps = []
        self.his = {}
        self.splitting = False
        self.inexact = False
        self._ht = {}
        self.nkill = {}
        self.nseq = 0
        self.carry = {}
        self.strides = {}
        self.snaps = {}         # moment -> definitions of one base at that moment

    # -- loops to 0-based ---------------------------------------------------
    def zero_base(self, loops, *vals):
        mp = {}
        nl = []
        for l in loops:
            lo = l.lo.subst(mp)
            hi = l.hi.subst(mp)
            cond = c_subst(l.cond, mp)
            a = ATOMS[l.atom]
            n = Loop(l.atom, lo, hi, cond, l.line, l.kind)
            n.partial = l.partial
            if not lo.is_zero():
                self.ex.uid += 1
                na = ('loop', a[1] + "'", self.ex.uid)
                ni = atom_id(na)
                mp[l.atom] = P.a(na) + lo
                n = Loop(ni, ZERO, hi - lo, c_subst(cond, {l.atom: P.a(na) + lo}), l.line, l.kind)
                n.partial = l.partial
            nl.append(n)
        return nl, mp

    def sub(self, v, mp):
        if not mp:
            return v
        if isinstance(v, P):
            return v.subst(mp)
        if isinstance(v, tuple):
            return tuple(self.sub(x, mp) for x in v)
        if isinstance(v, Ptr):
            return Ptr(v.base, self.sub(v.off, mp), v.ext)
        return v

    # -- temporaries --------------------------------------------------------
    def resolve(self, v, depth=0):
        if isinstance(v, P):
            return self.resolve_p(v, depth)
        if isinstance(v, C):
            return C(self.resolve_c(v.c, depth))
        if isinstance(v, Ptr) and isinstance(v.off, P):
            return Ptr(v.base, self.resolve_p(v.off, depth), v.ext)
        if isinstance(v, Tup):
            return Tup([self.resolve(x, depth) for x in v.v])
        return v

    def resolve_c(self, c, depth=0):
        if c is True or c is False:
            return c
        if c[0] in ('lt', 'lti', 'eq'):
            p = self.resolve_p(c[1], depth)
            return {'lt': sym.mk_lt, 'lti': sym.mk_lti, 'eq': sym.mk_eq}[c[0]](p)
        if c[0] == 'not':
            return c_not(self.resolve_c(c[1], depth))
        if c[0] == 'and':
            return c_and(*[self.resolve_c(x, depth) for x in c[1]])
        if c[0] == 'or':
            return c_or(*[self.resolve_c(x, depth) for x in c[1]])
        return map_nested(c, lambda p: self.resolve_p(p, depth))

    def resolve_p(self, p, depth=0):
        if depth > 12:
            self.inexact = True
            return p
        if not any(self.has_temp(a) for a in p.atoms()):
            return p
        r = P()
        for m, c in p.t.items():
            q = P({(): c})
            for a, n in m:
                v = self.resolve_atom(a, depth)
                for _ in range(n):
                    q = q * v
            r = r + q
        return r

    def tracked(self, b):
        return b[0] == 'at' or is_temp(b) or b in self.defs or b in self.killed

    def has_temp(self, a):
        r = self._ht.get(a)
        if r is None:
            r = any(ATOMS[x][0] == 'ld' and self.tracked(ATOMS[x][1]) for x in atom_free(a)) or self.cond_temp(ATOMS[a])
            self._ht[a] = r
        return r

    def cond_temp(self, a):
        out = [False]

        def go(x):
            if isinstance(x, P):
                for k in x.free():
                    if ATOMS[k][0] == 'ld' and self.tracked(ATOMS[k][1]):
                        out[0] = True
            elif isinstance(x, (tuple, frozenset)):
                for y in x:
                    go(y)
        go(a)
        return out[0]

    def resolve_atom(self, i, depth):
        a = ATOMS[i]
        if not self.has_temp(i):
            return P({((i, 1),): Fraction(1)})
        if a[0] == 'sum':
            for l in a[1]:
                self.his[l[0]] = l[2]
        if a[0] == 'ld':
            off = tuple(self.resolve_p(x, depth) for x in a[2]) if isinstance(a[2], tuple) else self.resolve_p(a[2], depth)
            if a[1][0] == 'at':
                _, b, u = a[1]
                ds, killed, n = self.snaps.get(u, ([], True, '?'))
                if not (is_temp(b) or ds or killed):
                    return P.a(('ld', b, off))
                r = self.lookup(b, off, depth, (ds, killed))
                return r if r is not None else P.a(('ld', ('v', b, f'?{n}'), off))
            if self.tracked(a[1]):
                r = self.lookup(a[1], off, depth)
                if r is not None:
                    return r
            return P.a(('ld', a[1], off))
        if a[0] == 'ite':
            return mk_ite(self.resolve_c(a[1], depth), self.resolve_p(a[2], depth), self.resolve_p(a[3], depth))
        b = map_nested(a, lambda p: self.resolve_p(p, depth))
        f = REBUILD.get(b[0])
        return f(b) if f else P.a(b)

    def moment(self, l):
        for b, u in l:
            ds = self.defs.get(b) or []
            self.snaps[u] = ([copy.copy(d) for d in ds], b in self.killed, len(ds))

    def lookup(self, base, off, depth, at=None):
        ds = self.defs.get(base)
        tmp = is_temp(base)
        killed = base in self.killed
        if at:
            ds, killed = at
        if killed or (tmp and not ds):
            self.use(base)
            return None if tmp else self.unsure(base, off, ZERO)
        return self.walk(base, off, list(ds or []), len(ds or []), tmp)

    def walk(self, base, off, ds, n, tmp):
        acc = ZERO
        for q in range(n - 1, -1, -1):
            d = ds[q]
            if d.kind == 'kill':
                return acc + P.a(('ld', ('v', base, ('c' if d.val is ONE else '') + str(self.nkill_at(base, d, ds))), off))
            own = [l for l in d.loops if not self.shared(l)]
            x = solve_offset(d.off, own, off)
            self.strides = coeffs(d.off, [l.atom for l in own])[0] if isinstance(d.off, P) else {}
            self.strides = self.strides or {}
            if x is None:
                # provably disjoint?
                if self.disjoint(d, own, off):
                    continue
                self.use(base)
                return None if tmp else self.unsure(base, off, acc)
            if not self.covers(d, own, x):
                if self.outside(d, own, x):
                    continue
                self.use(base)
                return None if tmp else self.unsure(base, off, acc)
            if c_subst(d.cond, x) is not True and not self.implied(c_subst(d.cond, x)):
                self.use(base)
                return None if tmp else self.unsure(base, off, acc)
            self.first = None
            part = self.partly(own, x)
            first, self.first = self.first, None
            if not isinstance(d.val, P):
                self.use(base)
                return None if tmp else self.unsure(base, off, acc)
            v = sym.freshen(d.val).subst(x)
            if part is not True and not self.implied(part):
                used = list(self.used_temps)
                # no iteration at all: the range is empty
                rest = self.walk(base, off - self.strides_of(d, own, first[0]) * first[1] if first else off, ds, q, tmp)
                self.used_temps = used
                if rest is not None:
                    if d.kind == 'acc':
                        return acc + mk_ite(part, v, ZERO) + rest
                    return acc + mk_ite(part, v, rest)
            # the defining loops' indices may still appear inside (shared) -> fine
            if d.kind == 'acc':
                acc = acc + v
                continue
            return acc + v
        if not tmp:
            return acc + P.a(('ld', base, off))
        self.use(base)
        return None

    def unsure(self, base, off, acc):
        """the cell may have been written: its value at this point"""
        ds = self.defs.get(base) or []
        return P.a(('ld', ('v', base, f'?{len(ds)}'), off))

    def nkill_at(self, base, d, ds):
        k = next(i for i, x in enumerate(ds) if x is d)
        return sum(1 for x in ds[:k + 1] if x.kind == 'kill')

    def use(self, base):
        if not is_temp(base):
            return
        if base in self.parts:
            for b in self.parts[base]:
                self.use(b)
        if base not in self.used_temps:
            self.used_temps.append(base)

    def shared(self, l):
        return any(l.atom == c for c in self.cur_loops)

    def implied(self, c):
        cs = set(c[1]) if isinstance(c, tuple) and c[0] == 'and' else {c}
        cur = self.cur_cond
        have = set(cur[1]) if isinstance(cur, tuple) and cur[0] == 'and' else {cur}
        return cs <= have

    def disjoint(self, d, own, off):
        if not own and isinstance(off, P) and isinstance(d.off, P):
            k = (d.off - off).const()
            return k is not None and k != 0
        return False

    def outside(self, d, own, x):
        for l in own:
            k = x[l.atom]
            lo, hi = l.lo.subst(x), l.hi.subst(x)
            c = (k - lo).const()
            if c is not None and c < 0:
                return True
            c = (k - hi).const()
            if c is not None and c >= 0:
                return True
        return False

    def covers(self, d, own, x):
        """is the solved index inside the range the definition covers?"""
        if self.outside(d, own, x):
            return False
        for l in own:
            k = x[l.atom]
            hi = l.hi.subst(x)
            at = [a for a in k.atoms() if ATOMS[a][0] == 'loop' and a in self.his]
            for a in at:
                h = self.his[a]
                if h == hi and k == P({((a, 1),): Fraction(1)}):
                    continue
                if len(k.t) == 1 or True:
                    parts = self.factor(a, h, own, x)
                    if parts and self.splitting:
                        raise Split(a, parts)
                if (h - hi).const() is not None and (h - hi).const() <= 0 and k == P({((a, 1),): Fraction(1)}):
                    continue
                self.inexact = True
        return True

    def strides_of(self, d, own, l):
        s = coeffs(d.off, [o.atom for o in own])[0] if isinstance(d.off, P) else None
        return (s or {}).get(l.atom, ONE)

    def partly(self, own, x):
        """condition under which the solved index lies inside the range of the definition, where the
        read sweeps (by a constant) beyond it"""
        cs = []
        for l in own:
            k = x[l.atom]
            if not any(ATOMS[a][0] == 'loop' for a in k.atoms()):
                # the last iteration, if there is one
                lo, hi = l.lo.subst(x), l.hi.subst(x)
                c = (k - hi).const()
                if c is not None and c < 0 and (k - lo).const() is None:
                    cs.append(c_not(sym.mk_lti(k - lo)))
                    if c == -1 and len(own) == 1:
                        self.first = (l, hi - lo)
                continue
            if not all(ATOMS[a][0] == 'loop' and a in self.his for a in k.atoms()):
                continue
            lo = hi = k
            for a in k.atoms():
                c = k.t.get(((a, 1),))
                if c is None or sum(any(y == a for y, _ in m) for m in k.t) != 1:
                    break
                top = self.his[a] - ONE
                lo = lo.subst({a: ZERO if c > 0 else top})
                hi = hi.subst({a: top if c > 0 else ZERO})
            else:
                c = (lo - l.lo.subst(x)).const()
                if c is not None and c < 0:
                    cs.append(c_not(sym.mk_lti(k - l.lo.subst(x))))
                c = (hi - l.hi.subst(x)).const()
                if c is not None and c >= 0:
                    cs.append(sym.mk_lti(k - l.hi.subst(x)))
        return c_and(*cs) if cs else True

    def factor(self, a, h, own, x):
        """loop a (0..h) sweeps several dimensions of a definition at once: h = product of
        the extents of consecutive dimensions starting with the one that a selects"""
        k = next((l for l in own if a in x[l.atom].atoms()), None)
        if k is None or len(x[k.atom].t) != 1 or x[k.atom] != P({((a, 1),): Fraction(1)}):
            return None
        s = self.strides
        parts = []
        prod = ONE
        rest = [l for l in own]
        cur = s[k.atom]
        base = cur
        while True:
            l = next((r for r in rest if s.get(r.atom) == cur), None)
            if l is None:
                return None
            rest.remove(l)
            ext = l.hi.subst(x)
            if (ext.free() & {a}):
                return None
            parts.append((ext, prod))
            prod = prod * ext
            cur = cur * ext
            if prod == h:
                return parts if len(parts) > 1 else None
            if len(parts) > 6:
                return None

    # -- first-order recurrences ----------------------------------------------
    def recurrences(self, effs):
        """b[f(i)] = b[f(i-1)] + g(i) over i in [lo,hi)  ->  b[f(i)] = b[f(lo-1)] + sum of g"""
        wr = {}
        for e in effs:
            if e.kind in ('st', 'acc', 'vnew', 'alloc', 'vcopy', 'phi'):
                bs = [e.base]
            elif e.kind in ('call', 'ctor', 'scan'):
                bs = [a.base for a in e.args or [] if isinstance(a, (Ptr, Vec)) and a.base and not const_arg(e, a)]
            else:
                continue
            for l in e.loops:
                wr.setdefault(l.atom, []).extend((b, e) for b in bs)
        effs = list(effs)
        for n, e in enumerate(effs):
            if e.kind != 'st' or not e.loops or not isinstance(e.off, P) or not isinstance(e.val, P):
                continue
            L = e.loops[-1]
            if L.partial or L.kind != 'for' or L.cond is not True or L.atom in c_free(e.guards):
                continue
            i = P({((L.atom, 1),): Fraction(1)})
            r = e.off.subst({L.atom: i - ONE})
            if r == e.off:
                continue
            ri = atom_id(('ld', e.base, r))
            if e.val.t.get(((ri, 1),)) != 1:
                continue
            g = P({m: c for m, c in e.val.t.items() if m != ((ri, 1),)})
            w = wr[L.atom]
            if sum(b == e.base for b, _ in w) != 1:
                continue
            ws = {b for b, _ in w}
            if any(ATOMS[x][0] == 'ld' and (ATOMS[x][1] in ws or ATOMS[x][1][0] == 'at' and ATOMS[x][1][1] in ws) or ATOMS[x][0] == 'phi' for x in g.free() | r.free()):
                continue
            self.ex.uid += 1
            j = P.a(('loop', f'j{self.ex.uid}', self.ex.uid))
            jid = next(iter(j.atoms()))
            p0 = P.a(('ld', e.base, e.off.subst({L.atom: L.lo - ONE})))
            gj = g.subst({L.atom: j})
            before = p0 + mk_sum((jid, L.lo, i, True), gj)
            for k, x in enumerate(effs):
                if x is not e and any(l.atom == L.atom for l in x.loops):
                    effs[k] = x.subst({ri: before})
            effs[n] = copy.copy(e)
            effs[n].val = before + g
        return effs

    # -- main ---------------------------------------------------------------
    def run(self, effs):
        self.parts = {}
        for e in effs:
            for b in [r[0] for r in reads_of(e)] + ([e.base] if isinstance(e.base, tuple) else []):
                if b and b[0] == 'fld' and isinstance(b[1], tuple) and b[1][0] == 'each':
                    l = self.parts.setdefault(b[1][1], [])
                    if b not in l:
                        l.append(b)
        effs = self.recurrences(effs)
        self.cur_loops = []
        self.cur_cond = True
        self.index = 0
        enter, leave = self.carried(effs)
        for idx, e in enumerate(effs):
            for b in leave.get(idx, ()):
                self.kill(b, e, True)
            todo = sorted(e.pre, key=lambda x: x[2])
            for d, b in sorted(enter.get(idx, ()), key=lambda x: x[0]):
                while todo and todo[0][2] <= d:
                    self.moment([todo.pop(0)[:2]])
                self.kill(b, e, True)
            for x in todo:
                self.moment([x[:2]])
            self.cur_loops = [l.atom for l in e.loops]
            self.cur_cond = e.guards
            if e.cap:
                self.moment(e.cap)
            if e.kind in ('st', 'acc'):
                self.add(e.kind, e.base, e.off, e.val, e)
            elif e.kind == 'vnew':
                self.killed.discard(e.base)
                if e.name in ('resize', 'assign') and nested_el(e.base) and isinstance(e.off, P):
                    self.add('st', ('szof', e.base), ZERO, e.off, e)
                if e.name == 'resize' and e.args and not (isinstance(e.args[0], P) and e.args[0].is_zero()):
                    lo = e.args[0]
                    self.fill(e, lo)
                else:
                    self.fill(e, ZERO)
            elif e.kind == 'alloc':
                self.defs[e.base] = []
                for b in self.parts.get(e.base, ()):
                    self.defs[b] = []
            elif e.kind == 'vcopy':
                self.vcopy(e)
            elif e.kind in ('call', 'ctor', 'scan', 'throw'):
                self.calls.append(e)
                self.call(e)
            elif e.kind == 'loop':
                self.call(e)
            elif e.kind == 'phi':
                self.add('st', e.base, e.off, e.val, e)
            elif e.kind == 'setfld':
                v = e.val if isinstance(e.val, (P, C)) else None
                if isinstance(v, C):
                    v = to_p(v)
                if v is not None:
                    self.add('st', ('fld', e.base, e.name), ZERO, v, e)
        return self

    def call(self, e):
        av = []
        for a in e.args or []:
            if isinstance(a, sym.Alias):
                a = self.ex.val(a)
            if isinstance(a, C):
                a = to_p(a) if to_p(a) is not None else Opq('cond')
            if isinstance(a, P):
                av.append(a)
            elif isinstance(a, Ptr) and isinstance(a.off, P):
                av.append(P.a(('argptr', a.base, a.off)))
            elif isinstance(a, Vec):
                av.append(P.a(('argptr', a.base, ZERO)))
            elif isinstance(a, Span):
                av.append(P.a(('argptr', a.ptr.base, ZERO)))
            elif isinstance(a, Str):
                av.append(P.a(('argstr', a.s)))
            elif isinstance(a, Obj):
                av.append(P.a(('argobj', a.key)))
            elif isinstance(a, Lam):
                av.append(P.a(('arglam',)))
            else:
                av.append(P.a(('argopq',)))
        for a in e.args or []:
            b = a.base if isinstance(a, (Ptr, Vec)) else None
            if b is not None and is_temp(b):
                self.use(b)
        n0 = self.nseq
        self.add('call', ('call', str(e.name)), tuple(av), ZERO, e)
        for en in self.defs.get(('call', str(e.name)), [])[-4:]:
            if en.seq > n0:
                en.w = tuple(isinstance(a, (Ptr, Vec)) and not const_arg(e, a) for a in e.args or [])
                en.ordered = not e.args or any(isinstance(a, (Ptr, Vec, Obj, Span, Lam)) and not const_arg(e, a) for a in e.args)
        if e.kind in ('throw', 'loop'):
            return
        for a in e.args or []:
            b = a.base if isinstance(a, (Ptr, Vec)) else None
            if b is not None and b and b[0] != 'addr' and not const_arg(e, a):
                self.kill(b, e)

    def kill(self, b, e, carried=False):
        for x in self.parts.get(b, ()):
            self.kill(x, e, carried)
        self.nkill[b] = self.nkill.get(b, 0) + 1
        en = Entry('kill', b, ZERO, ONE if carried else ZERO, True, [], e.fn, e.line)
        if b not in self.defs:
            self._ht = {}
        self.defs.setdefault(b, []).append(en)

    # -- memory carried from one iteration to the next -----------------------
    def carried(self, effs):
        span, writes, fresh = {}, {}, {}
        for i, e in enumerate(effs):
            for l in e.loops:
                a = span.setdefault(l.atom, [i, i])
                a[1] = i
            if e.kind in ('st', 'acc') and isinstance(e.off, (P, tuple)):
                writes.setdefault(e.base, []).append((i, e, e.off))
            elif e.kind in ('vnew', 'alloc', 'vcopy'):
                fresh.setdefault(e.base, []).append((i, e))
                writes.setdefault(e.base, []).append((i, e, None))
            elif e.kind in ('call', 'ctor', 'scan'):
                for a in e.args or []:
                    if isinstance(a, (Ptr, Vec)) and a.base and a.base[0] != 'addr' and not const_arg(e, a):
                        writes.setdefault(a.base, []).append((i, e, None))
        self.carry = {}
        inloop = {b: w for b, w in writes.items() if any(x[1].loops for x in w)}
        if not inloop:
            return {}, {}
        done = set()
        for i, e in enumerate(effs):
            if not e.loops:
                continue
            for b, r in reads_of(e):
                if b not in inloop:
                    continue
                for L in e.loops:
                    k = (L.atom, b)
                    if k in done:
                        continue
                    ws = [w for w in inloop[b] if any(l.atom == L.atom for l in w[1].loops)]
                    if not ws:
                        continue
                    if any(any(l.atom == L.atom for l in f[1].loops) and f[0] < i for f in fresh.get(b, [])):
                        continue
                    ok = True
                    for wi, we, wo in ws:
                        if wo is None:
                            if wi < i and we.kind in ('vnew', 'vcopy'):
                                continue
                            ok = False
                            break
                        own = [l for l in we.loops]
                        if isinstance(wo, tuple) or isinstance(r, tuple):
                            x = None
                            if wo == r:
                                x = {L.atom: P({((L.atom, 1),): Fraction(1)})} if any(L.atom in o.free() for o in (wo if isinstance(wo, tuple) else (wo,))) else None
                        else:
                            x = solve_offset(wo, own, r)
                        if x is not None and x[L.atom] == P({((L.atom, 1),): Fraction(1)}):
                            continue
                        if x is not None:
                            d = (x[L.atom] - next(l for l in own if l.atom == L.atom).lo).const()
                            if d is not None and d < 0:
                                continue
                            # written only after it was read
                            d = (x[L.atom] - P({((L.atom, 1),): Fraction(1)})).const()
                            if d is not None and (d > 0 and L.kind == 'for' or d < 0 and L.kind == 'desc'):
                                continue
                        # written earlier in the same iteration?
                        sh_ = {l.atom for l in e.loops}
                        own2 = [l for l in we.loops if l.atom not in sh_]
                        if wi < i and we.kind == 'st' and not isinstance(wo, tuple) and not isinstance(r, tuple) and we.guards is True and solve_offset(wo, own2, r) is not None:
                            ok = True
                            break
                        if not own2 and not isinstance(wo, tuple) and not isinstance(r, tuple):
                            d = (wo - r).const()
                            if d is not None and d != 0 and L.atom not in wo.free():
                                continue
                        ok = False
                        # keep looking for a covering write
                    if not ok:
                        done.add(k)
                        self.carry.setdefault(b, set()).add(L.atom)
        enter, leave = {}, {}
        for b, ls in self.carry.items():
            for a in ls:
                enter.setdefault(span[a][0], []).append((next(i for i, l in enumerate(effs[span[a][0]].loops) if l.atom == a), b))
                leave.setdefault(span[a][1] + 1, []).append(b)
        return enter, leave

    def fill(self, e, lo):
        if self.parts.get(e.base) and lo is ZERO:
            for b in self.parts[e.base]:
                self.kill(b, e)
        self.ex.uid += 1
        a = ('loop', f'f{self.ex.uid}', self.ex.uid)
        l = Loop(atom_id(a), lo, e.off if isinstance(e.off, P) else P.a(('size', e.base)), True, e.line)
        self.add('st', e.base, P.a(a), e.val if e.val is not None else ZERO, e, extra=[l], fresh=lo is ZERO)

    def vcopy(self, e):
        self.ex.uid += 1
        a = ('loop', f'c{self.ex.uid}', self.ex.uid)
        l = Loop(atom_id(a), ZERO, e.off if isinstance(e.off, P) else P.a(('size', e.val)), True, e.line)
        self.add('st', e.base, P.a(a), P.a(('ld', e.val, P.a(a))), e, extra=[l], fresh=True)
        for nm in sorted({b[2] for b in self.parts.get(e.base, []) + self.parts.get(e.val, [])}):
            self.add('st', sym.each(e.base, nm), P.a(a), P.a(('ld', sym.each(e.val, nm), P.a(a))), e, extra=[l], fresh=True)

    def split(self, s, nl, off, val, cond):
        loops = []
        repl = ZERO
        nm = str(ATOMS[s.atom][1])
        for k, (ext, stride) in enumerate(s.parts):
            self.ex.uid += 1
            a = ('loop', f'{nm}.{k}', self.ex.uid)
            loops.append(Loop(atom_id(a), ZERO, ext, True))
            repl = repl + P.a(a) * stride
        out = []
        for l in nl:
            if l.atom == s.atom:
                for x in loops:
                    x.kind, x.line, x.partial = l.kind, l.line, l.partial
                out += loops
            else:
                out.append(l)
        mp = {s.atom: repl}
        def f(v):
            if isinstance(v, tuple):
                return tuple(f(x) for x in v)
            return split_p(v, s.atom, repl, loops).subst(mp) if isinstance(v, P) else self.sub(v, mp)
        out2 = []
        for l in out:
            x = l.subst(mp)
            out2.append(x)
        return out2, f(off), f(val), c_subst(cond, mp)

    def add(self, kind, base, off, val, e, extra=(), fresh=False):
        cond = e.guards
        loops = list(e.loops) + list(extra)
        for l in loops:
            if l.cond is not True:
                cond = c_and(cond, l.cond)
        nl, mp = self.zero_base(loops)
        off, val, cond = self.sub(off, mp), self.sub(val, mp), c_subst(cond, mp)
        for _ in range(12):
            was, self.splitting = self.splitting, True
            try:
                return self.add1(kind, base, off, val, e, nl, cond, fresh)
            except Split as s:
                nl, off, val, cond = self.split(s, nl, off, val, cond)
            finally:
                self.splitting = was
        self.killed.add(base)

    def add1(self, kind, base, off, val, e, nl, cond, fresh):
        saved = self.cur_loops
        self.cur_loops = [l.atom for l in nl]
        self.his = {l.atom: l.hi for l in nl}
        self.inexact = False
        off = self.resolve(off) if isinstance(off, P) else tuple(self.resolve(x) for x in off)
        val = self.resolve(val)
        cond = self.resolve_c(cond)
        nl2 = []
        for l in nl:
            n = Loop(l.atom, self.resolve_p(l.lo), self.resolve_p(l.hi), True, l.line, l.kind)
            n.partial = l.partial
            nl2.append(n)
        self.cur_loops = saved
        en = Entry(kind, base, off, val, cond, nl2, e.fn, e.line)
        en.exact = not any(l.partial for l in nl2) and not self.inexact
        en.epoch = self.nkill.get(base, 0)
        self.nseq += 1
        en.seq = self.nseq
        if kind == 'acc':
            self.sum_out(en)
        elif kind != 'call':
            self.drop_loops(en)
        if base not in self.defs:
            self._ht = {}
        lst = self.defs.setdefault(base, [])
        if fresh and not en.loops[:-1]:
            # everything since the last call that saw the contents, as far as this replaces it
            k = max([i for i, x in enumerate(lst) if x.kind == 'kill'] + [-1])
            lst[k + 1:] = [x for x in lst[k + 1:] if not implied(en.cond, x.cond)]
        if kind == 'call':
            lst.append(en)
            return
        self.merge(lst, en)

    def off_free(self, en):
        s = set()
        for o in en.offs():
            s |= o.free()
        return s

    def sum_out(self, en):
        if not isinstance(en.val, P):
            return
        f = self.off_free(en)
        cl = self.carry.get(en.base, ())
        for l in reversed(list(en.loops)):
            if l.atom in cl:
                break
            if l.atom in f:
                continue
            if any(l.atom in (k.lo.free() | k.hi.free()) for k in en.loops if k is not l):
                continue
            cs = set()
            if en.cond is not True:
                parts = list(en.cond[1]) if en.cond[0] == 'and' else [en.cond]
                mine = [c for c in parts if l.atom in c_free(c)]
                rest = [c for c in parts if l.atom not in c_free(c)]
                en.cond = c_and(*rest)
                cs = mine
            en.val = mk_sum((l.atom, l.lo, l.hi, c_and(*cs)), en.val)
            en.loops.remove(l)

    def drop_loops(self, en):
        f = self.off_free(en)
        if isinstance(en.val, P):
            f |= en.val.free()
        f |= c_free(en.cond)
        cl = self.carry.get(en.base, ())
        for l in list(en.loops):
            if l.atom in cl:
                continue
            if l.atom in f or any(l.atom in (k.lo.free() | k.hi.free()) for k in en.loops if k is not l):
                continue
            if not isinstance(en.val, P):
                continue
            if l.kind in ('for', 'desc'):
                en.loops.remove(l)

    def merge(self, lst, en):
        """fold an accumulation into the store that defines the same region; a
        full overwrite supersedes the earlier definition."""
        if lst and isinstance(en.val, P) and lst[-1].kind not in ('kill', 'call'):
            p = lst[-1]
            mp = align(p, en)
            if mp is not None and isinstance(p.val, P):
                if en.kind == 'acc':
                    v = en.val.subst(mp)
                    if c_subst(en.cond, mp) == p.cond:
                        p.val = p.val + v
                        p.line = en.line if p.val == v else p.line
                        return
                    # conditional accumulation into an unconditional store
                    if p.cond is True and p.kind == 'st':
                        p.val = p.val + mk_ite(c_subst(en.cond, mp), v, ZERO)
                        return
                elif c_subst(en.cond, mp) == p.cond or en.cond is True:
                    # overwrite (value may read the old one)
                    v = en.val.subst(mp)
                    me = P.a(('ld', p.base, p.off))
                    mid = next(iter(me.atoms()))
                    if mid in v.free():
                        v = v.subst({mid: p.val}) if p.kind == 'st' else v
                        if p.kind != 'st':
                            lst.append(en)
                            return
                    elif any(ATOMS[x][0] == 'ld' and ATOMS[x][1] == p.base for x in v.free()):
                        lst.append(en)
                        return
                    p.kind = 'st'
                    p.val = v
                    p.line = en.line
                    p.fn = en.fn
                    p.cond = c_subst(en.cond, mp) if en.cond is not True else True
                    return
        # stores into a region after a zero fill of it stay separate entries
        lst.append(en)


def implied(c, d):
    """d holds only where c does (by shape)"""
    if c is True:
        return True
    parts = lambda x: set(x[1]) if isinstance(x, tuple) and x and x[0] == 'and' else set() if x is True else {x}
    return parts(c) <= parts(d)


def nested_el(b):
    """a container that is an element (or a member of an element) of another one"""
    return isinstance(b, tuple) and bool(b) and (b[0] == 'el' or b[0] == 'fld' and nested_el(b[1]))


# algorithms that only look at the elements between their iterators
READS = {'std::' + x for x in '''find find_if find_if_not count count_if accumulate inner_product min_element max_element minmax_element
 lower_bound upper_bound equal_range binary_search is_sorted is_sorted_until equal mismatch all_of any_of none_of distance
 lexicographical_compare adjacent_find search includes reduce transform_reduce advance next prev'''.split()}
ITER = re.compile(r'iterator\b|_Iter\b')
CITER = re.compile(r'const_iterator\b|normal_iterator<const |_const_iterator|istream_iterator|insert_iterator|ostream_iterator')


def const_arg(e, a):
    n = e.node
    if not n or 'pt' not in n:
        return False
    args = list(e.args)
    k = next((i for i, x in enumerate(args) if x is a), None)
    if k is None:
        return False
    nobj = len(args) - len(n.get('args', []))
    k -= nobj
    if k < 0:
        return str(e.name).split('::')[-1] in ('size', 'begin', 'end')
    pts = n.get('pt', [])
    if k >= len(pts) or pts[k] < 0:
        return False
    if str(e.name) in READS:
        return True
    t = e.tu.types[pts[k]]
    if ITER.search(t) and not t.endswith(('*', '&')):
        return CITER.search(t) is not None
    return t.startswith('const ') or not (t.endswith('*') or t.endswith('&'))


# ------------------------------------------------------------------ alignment
def order_loops(en):
    """sort key of each loop: its stride in the offset"""
    keys = []
    for l in en.loops:
        ks = []
        for o in en.offs():
            s, r = coeffs(o, [l.atom])
            ks.append(show(s[l.atom]) if s is not None else '?')
        keys.append((tuple(ks), l))
    return keys


def align(p, en):
    """map en's loop atoms onto p's such that the offsets and bounds coincide"""
    if len(p.loops) != len(en.loops) or len(p.offs()) != len(en.offs()):
        return None
    if not p.loops:
        return {} if p.offs() == en.offs() else None
    if len(p.loops) > 7:
        return None
    for perm in itertools.permutations(en.loops):
        mp = {}
        ok = True
        for a, b in zip(p.loops, perm):
            if a.atom != b.atom:
                mp[b.atom] = P({((a.atom, 1),): Fraction(1)})
        for a, b in zip(p.loops, perm):
            if b.hi.subst(mp) != a.hi or b.lo.subst(mp) != a.lo:
                ok = False
                break
        if ok and tuple(o.subst(mp) for o in en.offs()) == tuple(p.offs()):
            return mp
    return None


# ---------------------------------------------------------------- canonical
_CS = {}


def canon(p):
    """rename the bound indices of sums canonically"""
    if not isinstance(p, P):
        return p
    r = _CS.get(p)
    if r is not None:
        return r
    out = P()
    for m, c in p.t.items():
        q = P({(): c})
        for a, n in m:
            v = canon_atom(a)
            for _ in range(n):
                q = q * v
        out = out + q
    _CS[p] = out
    return out


def canon_atom(i):
    a = ATOMS[i]
    if not any(ATOMS[x][0] in ('sum', 'ite', 'red', 'last', 'rec', 'recn') for x in atom_free(i)):
        return P({((i, 1),): Fraction(1)})
    if a[0] == 'sum':
        return canon_sum(a)
    if a[0] == 'ite':
        return mk_ite(canon_c(a[1]), canon(a[2]), canon(a[3]))
    if a[0] == 'red':
        l = a[2]
        ci = atom_id(('loop', 'r0', 'c'))
        mp = {l[0]: P({((ci, 1),): Fraction(1)})}
        nl, s = _zero((l[0], canon(l[1]), canon(l[2]), l[3]))
        mp = {l[0]: P({((ci, 1),): Fraction(1)}) + s}
        return P.a(('red', a[1], (ci, ZERO, nl[2], canon_c(c_subst(nl[3], mp))), frozenset(canon(x.subst(mp)) for x in a[3]), canon(a[4])))
    if a[0] in ('rec', 'recn'):
        d = rec_depth(a)
        mp = {a[2]: P.a(('loop', 'cj', ('cr', d)))}
        for k, v in enumerate(a[1]):
            mp[v[0]] = P.a(('loop', f'cr{k}', ('cr', d, k)))
        vs = tuple((next(iter(mp[v[0]].atoms())), canon(v[1]), canon(v[2].subst(mp))) for v in a[1])
        jd = next(iter(mp[a[2]].atoms()))
        if a[0] == 'rec':
            return sym.mk_rec(vs, jd, canon(a[3]))
        return P.a(('recn', vs, jd, canon_c(c_subst(a[3], mp))))
    b = map_nested(a, canon)
    return P.a(b)


def rec_depth(a):
    d = 0
    for v in a[1]:
        for x in v[2].free():
            b = ATOMS[x]
            if b[0] in ('rec', 'recn'):
                d = max(d, 1 + rec_depth(b))
    return d


def _zero(l):
    return (l[0], ZERO, l[2] - l[1], l[3]), l[1]


def canon_c(c):
    if c is True or c is False:
        return c
    if c[0] == 'lt':
        return sym.mk_lt(canon(c[1]))
    if c[0] == 'lti':
        return sym.mk_lti(canon(c[1]))
    if c[0] == 'eq':
        return sym.mk_eq(canon(c[1]))
    if c[0] == 'not':
        return c_not(canon_c(c[1]))
    if c[0] in ('and', 'or'):
        return (c_and if c[0] == 'and' else c_or)(*[canon_c(x) for x in c[1]])
    return map_nested(c, canon)


def canon_sum(a):
    loops, body = list(a[1]), a[2]
    # shift to zero
    nl = []
    mp = {}
    for l in loops:
        lo, hi, cond = l[1].subst(mp), l[2].subst(mp), c_subst(l[3], mp)
        if not lo.is_zero():
            na = ('loop', str(ATOMS[l[0]][1]) + "'", ('z', l[0]))
            ni = atom_id(na)
            mp[l[0]] = P.a(na) + lo
            nl.append((ni, ZERO, hi - lo, c_subst(cond, {l[0]: P.a(na) + lo})))
        else:
            nl.append((l[0], lo, hi, cond))
    body = body.subst(mp)
    body = canon(body)
    conds = c_and(*[l[3] for l in nl])
    best = None
    if len(nl) > 6:
        return P.a(('sum', tuple(nl), body))
    for perm in itertools.permutations(nl):
        # a loop whose bounds mention another must come after it
        seen = set()
        ok = True
        ids = {l[0] for l in perm}
        for l in perm:
            if ((l[1].free() | l[2].free()) & ids) - seen:
                ok = False
                break
            seen.add(l[0])
        if not ok:
            continue
        mp = {l[0]: P.a(('loop', f's{k}', ('cs', depth_of(body), k))) for k, l in enumerate(perm)}
        b = body.subst(mp)
        key = (show(b), tuple((show(l[1].subst(mp)), show(l[2].subst(mp))) for l in perm), show_cond(c_subst(conds, mp)))
        if best is None or key < best[0]:
            best = (key, perm, mp, b)
    if best is None:
        return P.a(('sum', tuple(nl), body))
    _, perm, mp, b = best
    ls = []
    for k, l in enumerate(perm):
        ls.append((next(iter(mp[l[0]].atoms())), l[1].subst(mp), l[2].subst(mp), canon_c(c_subst(conds, mp)) if k == len(perm) - 1 else True))
    return P.a(('sum', tuple(ls), b))


def depth_of(p):
    d = 0
    for x in p.free():
        a = ATOMS[x]
        if a[0] == 'sum':
            d = max(d, 1 + depth_of(a[2]))
    return d


def canon_entry(en, force=None):
    """all candidate canonical renamings of an entry (ties in stride -> several)"""
    keys = order_loops(en)
    keys.sort(key=lambda k: k[0])
    groups = [list(g) for _, g in itertools.groupby(keys, key=lambda k: k[0])]
    outs = []
    opts = [list(itertools.permutations(g)) if len(g) <= 4 else [tuple(g)] for g in groups]
    for combo in itertools.product(*opts):
        order = [l for g in combo for _, l in g]
        mp = {l.atom: P.a(('loop', f'i{k}', ('ce', k))) for k, l in enumerate(order)}
        off = tuple(canon(o.subst(mp)) for o in en.offs())
        val = canon(en.val.subst(mp)) if isinstance(en.val, P) else en.val
        cond = canon_c(c_subst(en.cond, mp))
        bounds = tuple((canon(l.lo.subst(mp)), canon(l.hi.subst(mp))) for l in order)
        outs.append((off, bounds, cond, val))
        if len(outs) >= 48:
            break
    return outs
