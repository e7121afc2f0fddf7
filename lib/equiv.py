"""Decide whether a repository function computes what a reference definition says.

Both are interpreted abstractly (sym.Exec), brought to normal form (norm) and the
normal forms are compared.  'differ' is only answered when the two forms have the
same shape and every part of the differing item is fully understood; anything else
that does not match is 'undecided'.
"""
import itertools
from fractions import Fraction
from poly import P, ATOMS, atom_id, atom_free, show, show_base, show_cond, map_nested
import sym, norm
from sym import Loop, Vec, Ptr, Tup, Obj, Opq, C, Str, Span, Lam, ZERO, c_and, c_subst, show_v


class Side:
    pass


def analyse(prog, fn, names=None, noinline=()):
    ex = sym.Exec(prog, noinline=noinline)
    ex.run(fn, names=names)
    N = norm.Normalizer(ex)
    N.run(ex.eff)
    s = Side()
    s.ex, s.N, s.fn = ex, N, fn
    s.entries = {}
    s.ret = []
    s.undef = []
    ren = {}
    N.cur_loops = []
    N.cur_cond = True
    N.inexact = False
    collect_ret(s, ex.retval, ('ret',), ren, 0)
    th = getattr(ex, 'this', None)
    if fn.d.get('ctor') and isinstance(th, Obj):
        for k in sorted(th.fields):
            collect_ret(s, th.fields[k], ('this', k), ren, 0)
    for b, l in N.defs.items():
        if b in ren:
            nb = ren[b]
        elif norm.is_temp(b):
            continue
        else:
            nb = b
        s.entries.setdefault(nb, []).extend(l)
    s.scalars = []
    s.ren = ren
    s.calls = N.calls
    s.temps = [b for b in N.used_temps if b not in ren]
    return s


def collect_ret(s, v, path, ren, d):
    if d > 4 or v is None:
        return
    if isinstance(v, sym.Alias):
        v = s.ex.val(v)
    if isinstance(v, (P, C)):
        s.ret.append((path, s.N.resolve(v)))
    elif isinstance(v, Tup):
        for i, x in enumerate(v.v):
            collect_ret(s, x, path + (str(i),), ren, d + 1)
    elif isinstance(v, Vec):
        if norm.is_temp(v.base):
            ren[v.base] = path
        else:
            s.ret.append((path + ('is',), Str(show_base(v.base))))
        sz = s.ex.size_of(v)
        if sz is not None:
            s.ret.append((path + ('size',), s.N.resolve(sz)))
    elif isinstance(v, Obj):
        for k in sorted(v.fields):
            collect_ret(s, v.fields[k], path + (k,), ren, d + 1)
    elif isinstance(v, Str):
        s.ret.append((path, v))
    elif isinstance(v, Opq):
        if v.why != 'void':
            s.ret.append((path, v))
    elif isinstance(v, Ptr) and not norm.is_temp(v.base):
        s.ret.append((path + ('ptr',), s.N.resolve(v.off)))


# ------------------------------------------------------------- condition clean-up
def conj(c):
    if c is True:
        return []
    if isinstance(c, tuple) and c and c[0] == 'and':
        return list(c[1])
    return [c]


def tidy(cand):
    """drop conditions that hold whenever the loops are non-empty"""
    off, bounds, cond, val = cand
    pos = set()
    for lo, hi in bounds:
        pos.add(hi - lo)
    out = []
    for c in conj(cond):
        if implied(c, pos):
            continue
        out.append(c)
    return (off, bounds, c_and(*out), val)


def implied(c, pos):
    if not isinstance(c, tuple):
        return False
    if c[0] == 'not' and isinstance(c[1], tuple) and c[1][0] == 'eq':
        return any(p == c[1][1] or p == -c[1][1] for p in pos)
    if c[0] in ('lt', 'lti'):
        # c[1] < 0
        for p in pos:
            d = (c[1] + p).const()      # c1 = d - p,  p >= 1
            if d is not None and d < 1:
                return True
    return False


# ------------------------------------------------------------- comparison
PLAIN = {'ld', 'par', 'sym', 'loop', 'fld', 'sum', 'size', 'inv', 'call', 'abs', 'static', 'glob'}


def plain(x):
    """only constructs whose normal form is canonical enough to trust a difference"""
    if isinstance(x, P):
        for a in x.free():
            if ATOMS[a][0] not in PLAIN:
                return False
        return not norm.bad_atoms(x)
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and x[0] in ('lt', 'lti', 'eq'):
            return plain(x[1])
        if x and x[0] == 'not':
            return plain(x[1])
        if x and x[0] in ('and', 'or'):
            return all(plain(y) for y in x[1])
        if x and isinstance(x[0], str):
            return False
        return all(plain(y) for y in x)
    if x is True or x is False:
        return True
    return False


def skeleton(i):
    """an atom without its loop ranges / constant shifts"""
    a = ATOMS[i]
    if a[0] == 'sum':
        return ('sum', tuple(sorted(skel_p(a[2]))))
    if a[0] == 'ld':
        return ('ld', repr(a[1]))
    return a[0:1] + tuple(repr(x) for x in a[1:2] if not isinstance(x, P))


def skel_p(p):
    return {tuple(sorted(repr(skeleton(a)) + str(n) for a, n in m)) for m in p.t}


def pdiff(a, b):
    """monomials only in a / only in b"""
    da = P({m: c for m, c in a.t.items() if b.t.get(m) != c})
    db = P({m: c for m, c in b.t.items() if a.t.get(m) != c})
    return da, db


def val_differs(a, b):
    """True: certainly different; None: cannot tell"""
    if not isinstance(a, P) or not isinstance(b, P):
        return None
    da, db = pdiff(a, b)
    if not (plain(da) and plain(db)):
        return None
    if len(da.t) > len(db.t):
        # surplus terms: may be a range split into pieces
        sb = set()
        for m in b.t:
            for x, _ in m:
                if ATOMS[x][0] == 'sum':
                    sb.add(repr(skeleton(x)))
        for m in da.t:
            for x, _ in m:
                if ATOMS[x][0] == 'sum' and repr(skeleton(x)) in sb:
                    return None
    return True


def cond_differs(a, b):
    ca, cb = set(conj(a)), set(conj(b))
    xa, xb = ca - cb, cb - ca
    if not all(plain(c) for c in xa | xb):
        return None
    return True


def compare_entries(A, S):
    """-> list of (status, actual entry|None, spec entry|None, why)"""
    res = []
    ca = [[tidy(c) for c in norm.canon_entry(e)] for e in A]
    cs = [[tidy(c) for c in norm.canon_entry(e)] for e in S]
    ua, us = list(range(len(A))), list(range(len(S)))
    pairs = {}
    for i in list(ua):
        for j in us:
            if A[i].kind == S[j].kind and ca[i] and any(eqc(x, cs[j][0]) for x in ca[i]):
                ua.remove(i)
                us.remove(j)
                pairs[i] = j
                res.append(('ok', A[i], S[j], ''))
                break
    if not ua and not us:
        # order of overlapping writes
        seq = [pairs[i] for i in range(len(A))]
        for x in range(len(seq)):
            for y in range(x + 1, len(seq)):
                if seq[x] > seq[y]:
                    ex, ey = A[x], A[y]
                    if ex.kind == ey.kind == 'acc':
                        continue
                    if ca[x][0][0] == ca[y][0][0] and (ca[x][0][1] == ca[y][0][1]):
                        res.append(('differ' if exact(ex) and exact(ey) else 'undecided', ey, S[seq[y]], 'the two writes to the same elements happen in the other order'))
                        return res
        return res
    if len(ua) == len(us):
        # pair what is left by similarity
        best = None
        idx = list(us)
        perms = itertools.permutations(idx) if len(idx) <= 5 else [tuple(idx)]
        for perm in perms:
            sc = sum(similarity(ca[i], cs[j], A[i], S[j])[0] for i, j in zip(ua, perm))
            if best is None or sc > best[0]:
                best = (sc, perm)
        for i, j in zip(ua, best[1]):
            st, why = judge(ca[i], cs[j], A[i], S[j])
            res.append((st, A[i], S[j], why))
        return res
    if not ua and us:
        for j in us:
            ok = exact(S[j]) and all(exact(a) for a in A)
            res.append(('missing' if ok else 'undecided', None, S[j], 'this result is never produced'))
        return res
    if ua and not us:
        for i in ua:
            good = exact(A[i]) and all(exact(a) for a in A) and A[i].kind == 'acc' and isinstance(A[i].val, P) and plain(A[i].val) and plain(A[i].off)
            res.append(('differ' if good else 'undecided', A[i], None, 'an additional contribution'))
        return res
    for i in ua:
        res.append(('undecided', A[i], None, f'shape differs ({len(ua)} against {len(us)} items)'))
    return res


def exact(e):
    if not e.exact:
        return False
    if norm.bad_atoms(e.off) or norm.bad_atoms(e.cond):
        return False
    if isinstance(e.val, P):
        return not norm.bad_atoms(e.val)
    return not isinstance(e.val, Opq)


def eqc(x, y):
    if x[0] != y[0] or x[1] != y[1] or x[2] != y[2]:
        return False
    return sym.same(x[3], y[3]) if not isinstance(x[3], P) else x[3] == y[3]


def similarity(ca, cs, A, S):
    best = (-1, None, None)
    for x in ca:
        for y in cs[:1]:
            parts = (x[0] == y[0], sorted(map(repr, x[1])) == sorted(map(repr, y[1])), x[2] == y[2],
                     (x[3] == y[3]) if isinstance(x[3], P) else sym.same(x[3], y[3]), A.kind == S.kind)
            sc = sum(parts)
            if sc > best[0]:
                best = (sc, x, y)
    return best


def judge(ca, cs, A, S):
    sc, x, y = similarity(ca, cs, A, S)
    if x is None:
        return 'undecided', 'no comparable form'
    if not exact(A):
        return 'undecided', 'the computed value is not fully understood'
    if len(x[1]) != len(y[1]):
        return 'undecided', 'different number of loops'
    diffs = []
    if x[0] != y[0]:
        diffs.append('off')
    if x[1] != y[1]:
        diffs.append('bounds')
    if x[2] != y[2]:
        diffs.append('cond')
    vsame = (x[3] == y[3]) if isinstance(x[3], P) else sym.same(x[3], y[3])
    if not vsame:
        diffs.append('val')
    if A.kind != S.kind:
        diffs.append('kind')
    if len(diffs) > 2:
        return 'undecided', 'too many differences: ' + ','.join(diffs)
    for d in diffs:
        if d == 'off':
            if len(x[0]) != len(y[0]) or not all(plain(o) for o in x[0]) or not all(plain(o) for o in y[0]):
                return 'undecided', 'offset'
        elif d == 'bounds':
            if not all(plain(h) and plain(l) for l, h in x[1]):
                return 'undecided', 'bounds'
        elif d == 'cond':
            if not cond_differs(x[2], y[2]):
                return 'undecided', 'condition'
        elif d == 'val':
            if val_differs(x[3], y[3]) is not True:
                return 'undecided', 'value'
    return 'differ', describe(diffs, x, y)


def describe(diffs, x, y):
    out = []
    for d in diffs:
        if d == 'off':
            out.append(f'element written is [{", ".join(map(show, x[0]))}], the definition writes [{", ".join(map(show, y[0]))}]')
        elif d == 'bounds':
            out.append(f'index ranges are {", ".join("[%s,%s)" % (show(l), show(h)) for l, h in x[1])}, the definition has {", ".join("[%s,%s)" % (show(l), show(h)) for l, h in y[1])}')
        elif d == 'cond':
            out.append(f'happens if {show_cond(x[2])}, the definition if {show_cond(y[2])}')
        elif d == 'kind':
            out.append('stores where the definition accumulates (or the reverse)')
        elif d == 'val':
            if isinstance(x[3], P) and isinstance(y[3], P):
                da, db = pdiff(x[3], y[3])
                out.append(f'computes {show(da)[:600]} where the definition has {show(db)[:600]}')
            else:
                out.append('value differs')
    return '; '.join(out)


def compare(prog, fn, spec, names, snames=None, ignore=(), noinline=(), calls=True):
    """-> list of (status, where, message, key)"""
    a = analyse(prog, fn, names, noinline)
    s = analyse(prog, spec, snames or names, noinline)
    out = []
    where0 = f'{fn.loc} ({fn.q})'
    ign = tuple(ignore)
    bases = [b for b in s.entries] + [b for b in a.entries if b not in s.entries]
    for b in bases:
        nm = show_base(b)
        if nm in ign:
            continue
        if b in a.N.killed or b in s.N.killed:
            out.append(('undecided', where0, f'{nm}: passed to code that is not modelled', nm))
            continue
        A, S = a.entries.get(b, []), s.entries.get(b, [])
        if not A and (a.ex.opaque or a.N.killed):
            out.append(('undecided', where0, f'{nm}: nothing known about its writes', nm))
            continue
        for st, x, y, why in compare_entries(A, S):
            w = x.where if x is not None and x.fn else where0
            if st == 'missing':
                st = 'differ' if not a.ex.opaque and len(a.entries.get(b, [])) or not a.ex.opaque and not a.temps else 'undecided'
                msg = f'{nm}: missing: {y.show()[:800]}'
            elif st == 'ok':
                msg = f'{nm}: {x.show()[:300]}'
            else:
                msg = f'{nm}: {why}'
            if st == 'differ' and (a.temps or s.temps):
                if any(uses_temp(e, a.temps) for e in (x,) if e) or any(uses_temp(e, s.temps) for e in (y,) if e):
                    st = 'undecided'
            out.append((st, w, msg, nm))
    # scalar results
    ra, rs = dict(a.ret), dict(s.ret)
    for k in list(rs) + [k for k in ra if k not in rs]:
        nm = '.'.join(k)
        if nm in ign:
            continue
        x, y = ra.get(k), rs.get(k)
        if x is None or y is None:
            out.append(('undecided', where0, f'{nm}: result not comparable', nm))
            continue
        if isinstance(x, C) and isinstance(y, C):
            cx, cy = norm.canon_c(x.c), norm.canon_c(y.c)
            if cx == cy:
                out.append(('ok', where0, f'{nm} = {show_cond(cx)[:200]}', nm))
            elif plain(cx) and plain(cy) and not a.ex.opaque:
                out.append(('differ', where0, f'{nm} is {show_cond(cx)[:400]}, the definition has {show_cond(cy)[:400]}', nm))
            else:
                out.append(('undecided', where0, f'{nm}: condition', nm))
            continue
        if isinstance(x, C):
            x = sym.to_p(x)
        if isinstance(y, C):
            y = sym.to_p(y)
        if isinstance(x, P) and isinstance(y, P):
            cx, cy = norm.canon(x), norm.canon(y)
            if cx == cy:
                out.append(('ok', where0, f'{nm} = {show(cx)[:300]}', nm))
                continue
            if not norm.bad_atoms(cx) and not has_temp(cx) and val_differs(cx, cy) is True:
                da, db = pdiff(cx, cy)
                out.append(('differ', where0, f'{nm}: computes {show(da)[:600]} where the definition has {show(db)[:600]}', nm))
            else:
                out.append(('undecided', where0, f'{nm}: value', nm))
            continue
        if isinstance(x, Str) and isinstance(y, Str):
            out.append(('ok' if x.s == y.s else 'undecided', where0, f'{nm} = {x.s}', nm))
            continue
        out.append(('undecided', where0, f'{nm}: {show_v(x)} / {show_v(y)}', nm))
    return out, a, s


def has_temp(p):
    return any(ATOMS[x][0] == 'ld' and norm.is_temp(ATOMS[x][1]) for x in p.free())


def uses_temp(e, temps):
    ps = list(e.offs()) + ([e.val] if isinstance(e.val, P) else [])
    return any(has_temp(p) for p in ps if isinstance(p, P))


def check(ck, prog, fn, spec, names, snames=None, ignore=(), noinline=(), label=None, rule=None):
    """compare and report to a report.Check"""
    label = label or fn.q
    ck.fn(fn)
    try:
        out, a, s = compare(prog, fn, spec, names, snames, ignore, noinline)
    except RecursionError:
        ck.undecide(f'{label}: too deep')
        return
    for st, w, msg, nm in out:
        if st == 'ok':
            ck.ok(f'{fn.loc} {msg}')
        elif st == 'differ':
            ck.violation(w, rule or 'value-equals-definition', msg, key=f'{label}|{nm}|{rule or "def"}')
        else:
            ck.undecide(f'{w}: {msg}')
