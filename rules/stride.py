"""Arrays with a leading-dimension parameter are walked with that leading dimension.

For every function with a parameter pair (array X, leading dimension LDX):
 * every element access to X in the effect trace: each term of the offset that multiplies an index
   by a symbolic stride has LDX as a factor;
 * wherever X is handed to a BLAS/LAPACK matrix argument or to a function of the repository with
   such a pair, the leading dimension handed along is LDX.
"""
import re
import prog, refcmp
from sym import P as Poly, Ptr, ATOMS, show, show_base
from norm import reads_of
from rules import traces

RULE = ('leading dimensions: in functions taking (X, LDX) every two-index access to X has LDX as the stride, and X is '
        'passed on only together with LDX')
LIB = re.compile(r'^(blas|lapack)::(gemm|gemv|ger|syrk|herk|syr2k|her2k|trsm|trmm|symm|hemm|symv|hemv|lacpy|laset|lange|potrf|getrf|geqrf|heevd?|syevd?|hegvd?|sygvd?|heev_2stage|potrs|getrs|gesv|posv)$')
LEVEL2 = {'gemv': 1, 'ger': 0, 'symv': 1, 'hemv': 1}


def pairs(f, tu):
    """[(pointer parameter, leading dimension parameter)]"""
    ps = f.d.get('params', [])
    ptrs = [p for p in ps if tu.ty(p).rstrip().endswith('*') or tu.ty(p).rstrip().endswith('*const')]
    names = {p['n'] for p in ps if p.get('n')}
    out = []
    for p in ptrs:
        n = p.get('n') or ''
        if 'LD' + n in names:
            out.append((n, 'LD' + n))
            continue
        i = ps.index(p)
        if i + 1 < len(ps):
            m = ps[i + 1].get('n') or ''
            # the next parameter is its leading dimension unless that name belongs to another pointer
            if re.match(r'^LD\w+$', m) and m[2:] not in {q.get('n') for q in ptrs}:
                out.append((n, m))
    return out


def run(P, ck):
    ck.rule(RULE)
    big = {f.fk or f.q for f in P.fns if f.body and not refcmp.small(f)}
    n = 0
    for f in sorted(P.fns, key=lambda f: (f.rel, f.l, f.q)):
        if not f.body or '/attic/' in f.rel or '/examples/' in f.rel:
            continue
        tu = f.tu
        pr = pairs(f, tu)
        if not pr:
            continue
        ex = traces.trace(P, f, noinline=big - {f.fk or f.q})
        if ex is None:
            ck.undecide(f'{f.q}: trace out of reach')
            continue
        ck.fn(f)
        ld = dict(pr)
        n += len(pr)
        sites = {}
        for e in ex.eff:
            acc = [(b, o) for b, o in reads_of(e)]
            if e.kind in ('st', 'acc'):
                acc.append((e.base, e.off))
            for b, o in acc:
                if b[0] != 'p' or b[1] not in ld or not isinstance(o, Poly):
                    continue
                L = ld[b[1]]
                for m in o.t:
                    top = [i for i, _ in m]
                    idx = [i for i in top if ATOMS[i][0] in ('loop', 'j') or 'loop' in str(ATOMS[i][0])]
                    oth = [i for i in top if i not in idx]
                    if not idx or not oth:
                        continue
                    key = (b[1], L)
                    if any(ATOMS[i] == ('par', L) for i in oth):
                        sites.setdefault(key, [0, 0])[0] += 1
                    elif all(ATOMS[i][0] in ('par', 'fld') for i in oth):
                        sites.setdefault(key, [0, 0])[1] += 1
                        ck.violation(e.where, 'stride', f'{b[1]}[{show(o)[:200]}] is addressed with stride {"*".join(str(ATOMS[i][1]) if ATOMS[i][0] == "par" else str(ATOMS[i][-1]) for i in oth)} '
                                     f'instead of its leading dimension {L}', f'stride|{f.q}|{b[1]}|{"*".join(str(ATOMS[i][-1]) for i in oth)}')
            if e.kind == 'call' and e.args:
                short = (e.name or '').split('::')[-1]
                g = None
                if LIB.match(e.name or ''):
                    cand = [(k, k + 1) for k, a in enumerate(e.args[:-1]) if isinstance(a, Ptr)]
                    if short in LEVEL2:
                        cand = cand[:1] if LEVEL2[short] else cand[-1:]
                else:
                    g = P.by_fk.get((e.node or {}).get('fk'))
                    cand = []
                    if g is not None:
                        gp = [p.get('n') for p in g.d.get('params', [])]
                        sh = len(e.args) - len(gp)
                        if sh in (0, 1):
                            cand = [(gp.index(x) + sh, gp.index(y) + sh) for x, y in pairs(g, g.tu)]
                for k, l in cand:
                    a, s = e.args[k], e.args[l] if l < len(e.args) else None
                    if not isinstance(a, Ptr) or a.base[0] != 'p' or a.base[1] not in ld or not isinstance(s, Poly):
                        continue
                    L = ld[a.base[1]]
                    lp = Poly.a(('par', L))
                    if (s - lp).is_zero():
                        ck.ok(f'{e.where}: {short}({a.base[1]}, {L})')
                    elif any(ATOMS[i] == ('par', L) for i in s.free()):
                        ck.undecide(f'{e.where}: {short}({a.base[1]}, {show(s)[:80]})')
                    elif s.const() is not None:
                        ck.undecide(f'{e.where}: {short}({a.base[1]}, {show(s)})')
                    else:
                        ck.violation(e.where, 'stride', f'{e.name} gets {a.base[1]} with leading dimension {show(s)[:80]} instead of {L}', f'stride|{f.q}|{short}|{a.base[1]}|{show(s)[:60]}')
        for (x, L), (g, b) in sites.items():
            if not b:
                ck.ok(f'{f.q}: {g} two-index terms on {x} all use {L}')
    ck.need(n, 'no (array, leading dimension) parameters found')
    ck.count('array/leading dimension pairs', n)
    ck.assumptions.append('parameters named LD<name> are the leading dimensions of the arrays they are named after')
