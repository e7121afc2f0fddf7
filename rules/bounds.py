"""Accesses to local buffers stay inside the size they were allocated with (symbolic ranges).

Abstract domain: polynomials over the (non-negative) size symbols of the function.  For every local
buffer of symbolic size, every element access in the fully inlined trace is bounded by replacing the
loop indices, innermost first, by the end of their ranges that maximises (minimises) the offset;
BLAS calls access the footprint their dimensions, leading dimension and increments describe.
`size - 1 - max` with only non-negative coefficients is proved; with only non-positive coefficients,
not all zero, it is an overrun for every size at which the loop runs.
"""
import prog, refcmp
from sym import P as Poly, Ptr, c_free, Vec, ATOMS, show, show_base, ONE
from norm import reads_of
from rules import traces
from rules.omprace import uses, lin

RULE = ('symbolic bounds: for every local buffer with polynomial size, the maximal offset of each access over its loop nest '
        '(and of each BLAS operand footprint) is below the size, as polynomials with non-negative coefficients')
ZERO = Poly.c(0)


def sign(p):
    """1: all coefficients >= 0 (p >= 0), -1: all <= 0 and p != 0, 0: unknown, for non-negative symbols"""
    cs = list(p.t.values())
    if all(c >= 0 for c in cs):
        return 1
    if all(c <= 0 for c in cs):
        return -1
    return 0


def extreme(off, loops, want):
    """largest / smallest value of off over the loop nest, or None"""
    for l in reversed(loops):
        if not uses(off, l.atom):
            continue
        la = lin(off, l.atom)
        if la is None or not isinstance(l.lo, Poly) or not isinstance(l.hi, Poly):
            return None
        s = sign(la[0])
        if s == 0:
            return None
        up = (s == 1) == want
        off = la[1] + la[0] * ((l.hi - ONE) if up else l.lo)
    return off


def runs(loops):
    """symbols that are at least one when the loop nest is entered"""
    out = set()
    for l in loops:
        if isinstance(l.hi, Poly) and isinstance(l.lo, Poly) and l.lo.const() is not None and l.lo.const() >= 0:
            t = l.hi.t
            if len(t) == 1:
                (m, c), = t.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    out.add(m[0][0])
    return out


def known(p):
    """only symbols that are non-negative by type or role"""
    return all(ATOMS[i][0] in ('par', 'fld', 'min', 'max', 'loop', 'val', 'size', 'szof', 'ret', 'out', 'j') for m in p.t for i, _ in m)


def footprints(e):
    """(pointer, last offset relative to it) of the array operands of a BLAS call, or ()"""
    n = (e.name or '')
    if not n.startswith('blas::'):
        return ()
    n = n[6:]
    a = e.args
    try:
        if n == 'gemm':
            ta, tb, m, k_n, k, al, A, lda, B, ldb, be, Cc, ldc = a[1:14]
            out = [(Cc, (k_n - ONE) * ldc + m - ONE)]
            return out
        if n in ('dot', 'copy', 'swap', 'dotu'):
            return [(a[1], (a[0] - ONE) * a[2]), (a[3], (a[0] - ONE) * a[4])]
        if n == 'axpy':
            return [(a[2], (a[0] - ONE) * a[3]), (a[4], (a[0] - ONE) * a[5])]
        if n in ('nrm2', 'asum'):
            return [(a[1], (a[0] - ONE) * a[2])]
        if n == 'scal':
            return [(a[2], (a[0] - ONE) * a[3])]
    except (TypeError, ValueError, IndexError):
        pass
    return ()


def conj(c):
    return [] if c is True else list(c[1]) if c[0] == 'and' else [c]


def harmless(g, o, s):
    """the guard compares data, or integers that have nothing to do with the access"""
    mine = set(o.free()) | set(s.free())
    for c in g:
        d = c[1] if c[0] == 'not' else c
        if d[0] == 'lt':
            continue
        if d[0] not in ('lti', 'eq', 'nn') or mine & set(c_free(d)):
            return False
    return True


def run(P, ck):
    ck.rule(RULE)
    n = 0
    for f in sorted(P.fns, key=lambda f: (f.rel, f.l, f.q)):
        if not f.body or '/attic/' in f.rel or '/examples/' in f.rel:
            continue
        if not prog.nodes(f.d, 'for', 'while', 'do', 'rfor', 'sub', 'call'):
            continue
        big = {g.fk or g.q for g in P.fns if g.body and not refcmp.small(g)}
        ex = traces.trace(P, f, noinline=big - {f.fk or f.q})
        if ex is None:
            continue
        ck.fn(f)
        size = {}
        seen = {}
        for e in ex.eff:
            if e.kind == 'vnew':
                b = e.base
                if b[0] in ('loc', 'new'):
                    ok = isinstance(e.off, Poly) and (e.name is None or e.name in ('resize', 'assign'))
                    size[b] = (e.off, e.guards, e.loops) if ok else None
                continue
            if e.kind in ('vcopy', 'vmove', 'alloc'):
                if e.base in size:
                    size[e.base] = None
                continue
            if e.kind in ('call', 'ctor'):
                for a in e.args or []:
                    if isinstance(a, Vec) and a.base in size:
                        size[a.base] = None        # may be resized by the callee
            acc = []
            if e.kind in ('st', 'acc'):
                acc.append((e.base, e.off, ZERO, e.loops))
            elif e.kind == 'call':
                for p, last in footprints(e):
                    if isinstance(p, Ptr) and isinstance(p.off, Poly) and isinstance(last, Poly):
                        acc.append((p.base, p.off, last, e.loops))
            for b, o in reads_of(e):
                if b in size and isinstance(o, Poly):
                    fr = {i for i in o.free() if ATOMS[i][0] in ('loop', 'j')}
                    if fr <= {l.atom for l in e.loops}:
                        acc.append((b, o, ZERO, e.loops))
            for b, o, last, loops in acc:
                s = size.get(b)
                if s is None or not isinstance(o, Poly):
                    continue
                s, sg, sl = s
                if not set(conj(sg)) <= set(conj(e.guards)) or tuple(l.atom for l in sl) != tuple(l.atom for l in loops[:len(sl)]):
                    continue
                extra = [c for c in conj(e.guards) if c not in conj(sg)]
                n += 1
                tag = (b, o, last)
                hi = extreme(o + last, loops, True)
                lo = extreme(o, loops, False)
                what = f'{show_base(b)}[{show(o + last)[:120]}] in a buffer of {show(s)[:80]}'
                if hi is None or lo is None:
                    ck.undecide(f'{e.where}: {what}')
                    continue
                d = s - ONE - hi
                one = runs(loops)
                mp = {i: Poly.a(ATOMS[i]) + ONE for i in one}
                d1 = d.subst(mp) if mp else d
                l1 = lo.subst(mp) if mp else lo
                if sign(d1) == 1 and sign(l1) == 1:
                    ck.ok(f'{e.where}: {what}')
                elif harmless(extra, o, s) and all(l.cond is True and l.kind == 'for' for l in loops) and sign(d1) == -1 and known(d1) and all(uses(o, l.atom) for l in loops):
                    ck.violation(e.where, 'bounds', f'{what} reaches offset {show(hi)[:160]}', f'bounds|{f.q}|{b[2] if len(b) > 2 else b}|{show(o)[:80]}')
                else:
                    ck.undecide(f'{e.where}: {what}')
    ck.need(n, 'no local buffers found')
    ck.count('accesses', n)
    ck.assumptions.append('integer parameters that serve as extents are non-negative')
