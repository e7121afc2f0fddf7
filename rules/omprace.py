"""Iterations of an OpenMP loop do not interfere.

For every `omp parallel for` (with `collapse`), in every instantiation:
 * a variable declared outside the loop is not assigned in it, unless a clause makes it
   private or a reduction, or the assignment is atomic / critical; containers declared
   outside are not grown or cleared;
 * an element written by an iteration is addressed by an offset which differs between any two
   iterations (linear in the loop index, a leading-dimension column, or the segment of a pointer
   array), and `+=` never goes through an index read from data;
 * an iteration does not read an element another iteration writes (offsets that differ by a
   constant shift).
"""
import prog
from sym import P as Poly, ATOMS, show, show_base
from norm import reads_of
from rules import traces

RULE = ('loop independence: in every OpenMP parallel loop no shared variable is assigned, element offsets written are '
        'injective in the parallel index, and no iteration reads what another one writes')
GROW = {'push_back', 'emplace_back', 'resize', 'insert', 'clear', 'erase', 'reserve', 'pop_back', 'assign', 'emplace', 'swap'}


def strip(n):
    while isinstance(n, dict) and n.get('k') in ('cast', 'paren') and isinstance(n.get('e'), dict):
        n = n['e']
    return n


def root(n):
    """variable below subscripts / members, and whether the access goes through memory"""
    mem = False
    while isinstance(n, dict):
        k = n.get('k')
        if k in ('cast', 'paren'):
            n = n.get('e')
        elif k == 'ref':
            return n, mem
        else:
            return None, True
    return None, True


def exempt(omp):
    s = set()
    for c in omp.get('clauses', []):
        if c['k'] in ('private', 'firstprivate', 'lastprivate', 'reduction', 'linear'):
            for a in c['args']:
                a = strip(a)
                if a.get('k') == 'ref':
                    s.add(a.get('id'))
    return s


def shared_writes(omp):
    own = exempt(omp)
    prot = set()
    for n in prog.nodes(omp.get('body'), 'decl'):
        for v in n['vars']:
            own.add(v.get('id'))
            for b in v.get('bind') or []:
                if isinstance(b, dict):
                    own.add(b.get('id'))
    for n in prog.nodes(omp.get('body')):
        if n['k'] == 'rfor' and isinstance(n.get('var'), dict):
            own.add(n['var'].get('id'))
        if n['k'] == 'lambda':
            for p in n.get('params', []) or []:
                if isinstance(p, dict):
                    own.add(p.get('id'))
        if n['k'] == 'omp' and (n['dir'].startswith('critical') or n['dir'].startswith('atomic')):
            for x in prog.nodes(n.get('body')):
                prot.add(id(x))
    for n in prog.nodes(omp.get('body'), 'asg', 'un'):
        if id(n) in prot or n['k'] == 'un' and n.get('op') not in ('++', '--'):
            continue
        r, mem = root(n['a'] if n['k'] == 'asg' else n['e'])
        if r is not None and not mem and r.get('dk') in ('param', 'local', 'static', 'global') and r.get('id') not in own:
            yield n, r.get('n')
    for n in prog.nodes(omp.get('body'), 'call'):
        if id(n) in prot or 'obj' not in n:
            continue
        if (n.get('fn') or '').split('::')[-1] in GROW and (n.get('fn') or '').startswith('std::'):
            r, mem = root(n['obj'])
            if r is not None and r.get('dk') in ('param', 'local', 'static', 'global') and r.get('id') not in own:
                yield n, r.get('n')


def lin(p, a):
    """(coefficient of a, rest) when p is linear in atom a and a occurs nowhere inside another atom; else None"""
    c, r = Poly.c(0), Poly.c(0)
    for m, k in p.t.items():
        e = dict(m).get(a, 0)
        if e == 0:
            if any(deep(i, a) for i, _ in m):
                return None
            r = r + Poly({m: k})
        elif e == 1:
            m2 = tuple(x for x in m if x[0] != a)
            if any(deep(i, a) for i, _ in m2):
                return None
            c = c + Poly({m2: k})
        else:
            return None
    return c, r


def deep(i, a, seen=None):
    if i == a:
        return True

    def go(x):
        if isinstance(x, Poly):
            return any(deep(j, a) for j in x.free())
        if isinstance(x, (tuple, frozenset, list)):
            return any(go(y) for y in x)
        return False
    return go(ATOMS[i][1:])


def uses(p, a):
    return any(deep(i, a) for i in p.free())


def injective(off, a, e, par):
    """True / False / None: do different values of the parallel index a give different offsets"""
    if not uses(off, a):
        return False
    inner = [l for l in e.loops if l.atom != a and uses(off, l.atom) and l.atom not in par]
    la = lin(off, a)
    if la is not None:
        c, r = la
        if not c.is_zero():
            if c.const() is not None:
                if not inner:
                    return True
                # unit stride with an inner offset: disjoint only if the inner range is narrower than the stride
                return None
            return True         # leading dimension (documented to be at least the column height)
    # segment of a pointer array
    for l in inner:
        lj = lin(off, l.atom)
        if lj is not None and not lj[0].free() and isinstance(l.hi, Poly) and isinstance(l.lo, Poly) and uses(l.hi - l.lo, a):
            return True
    return None


def data_index(off, a):
    """the index reaches the offset only through an element read from memory"""
    def go(i):
        at = ATOMS[i]
        if at[0] == 'ld':
            return deep(i, a)
        return False
    ids = {i for m in off.t for i, _ in m}
    return a not in ids and any(go(i) for i in ids)


def run(P, ck):
    ck.rule(RULE)
    n = 0
    for f in sorted(P.fns, key=lambda f: (f.rel, f.l, f.q)):
        if not f.body or '/attic/' in f.rel or '/examples/' in f.rel:
            continue
        os_ = [o for o in prog.nodes(f.d, 'omp') if 'for' in o['dir'].split() or o['dir'] == 'parallel']
        if not os_:
            continue
        ck.fn(f)
        n += len(os_)
        for o in os_:
            w = list(shared_writes(o))
            for s, nm in w:
                ck.violation(f'{f.rel}:{s.get("l", o["l"])} ({f.q})', 'omp', f'the parallel loop at line {o["l"]} assigns {nm}, which is shared by all threads',
                             f'omp|{f.q}|shared|{nm}')
            if not w:
                ck.ok(f'{f.rel}:{o["l"]} {f.q}: no shared variable is assigned')
        ex = traces.trace(P, f)
        if ex is None:
            ck.undecide(f'{f.q}: trace out of reach')
            continue
        for i, e in enumerate(ex.eff):
            if e.kind != 'omp' or e.fn is not f or 'for' not in e.name.split():
                continue
            node = e.node
            depth = len(e.loops)
            col = 1
            for c in node.get('clauses', []):
                if c['k'] == 'collapse' and c['args'] and c['args'][0].get('k') == 'int':
                    col = c['args'][0]['i']
            body = node.get('body')
            line = body.get('l') if isinstance(body, dict) else None
            inside = [g for g in ex.eff[i + 1:] if len(g.loops) >= depth + 1 and g.loops[depth].line == line]
            writes = [g for g in inside if g.kind in ('st', 'acc')]
            for g in writes:
                off = g.off if isinstance(g.off, Poly) else None
                if off is None or len(g.loops) < depth + col:
                    ck.undecide(f'{g.where}: offset not linear')
                    continue
                par = [l.atom for l in g.loops[depth:depth + col]]
                if 'omp_get_thread_num' in str(g.base) or 'omp_get_thread_num' in str(off):
                    ck.ok(f'{g.where}: {show_base(g.base)[:60]} is the scratch of one thread')
                    continue
                if g.base[0] in ('loc', 'new') and private(g, node, par):
                    continue
                res = [injective(off, a, g, par) for a in par]
                what = f'{show_base(g.base)}[{show(off)}]'[:160]
                key = f'omp|{f.q}|{g.base}|{g.kind}'
                if any(r is False for r in res):
                    ck.violation(g.where, 'omp', f'{what} is written by every iteration of the parallel loop at line {e.line}', key)
                elif g.kind == 'acc' and any(data_index(off, a) for a in par):
                    ck.violation(g.where, 'omp', f'{what} is accumulated through an index read from data by concurrent iterations of the loop at line {e.line}', key)
                elif all(res):
                    ck.ok(f'{g.where}: {what} distinct per iteration')
                else:
                    ck.undecide(f'{g.where}: {what}')
                # reads of what other iterations write
                if col == 1 and not off is None:
                    la = lin(off, par[0])
                    for h in inside:
                        for b, ro in reads_of(h):
                            if b != g.base or not isinstance(ro, Poly) or h.loops[depth].atom != par[0] and len(h.loops) <= depth:
                                continue
                            ha = h.loops[depth].atom
                            lb = lin(ro, ha)
                            if la and lb and la[0] == lb[0] and not la[0].is_zero() and not la[0].free() and not any(uses(la[1], l.atom) for l in g.loops) \
                                    and not any(uses(lb[1], l.atom) for l in h.loops):
                                d = la[1] - lb[1]
                                if not d.free() and not d.is_zero():
                                    ck.violation(h.where, 'omp', f'reads {show_base(b)}[{show(ro)}], which another iteration of the parallel loop at line {e.line} writes', key + '|raw')
    ck.need(n, 'no OpenMP loops found')
    ck.count('parallel loops', n)
    ck.assumptions.append('leading dimensions are at least the column height; pointer arrays are monotone (class invariants, checked by C03/C08)')


def private(g, node, par):
    """allocated inside the loop body"""
    ln = [n.get('l') for n in prog.nodes(node.get('body'), 'decl')]
    return g.base[0] == 'loc' and any(v.get('id') == g.base[1] for n in prog.nodes(node.get('body'), 'decl') for v in n['vars'])
