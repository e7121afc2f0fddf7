"""Data keep their precision.

On the type-checked tree of every instantiation:
 * no conversion takes floating-point data to a narrower floating-point type or to an integer, unless the
   result only reaches log messages (or the operand is an integer estimate scaled by literals);
 * no conversion takes an integer below 32 bits;
 * a reduction over a range starts from a value whose type holds the elements;
 * compound assignments do not add wider data to a narrower variable;
 * a 32-bit shift is not computed before widening to 64 bits.
"""
import re
import prog
from rules.omprace import strip

RULE = ('precision: floating data never converted to a narrower or integer type outside logging; reductions started in a type that holds the '
        'elements; no integer narrowed below 32 bits; no 32-bit shift widened afterwards')
W = {'bool': (0, 1), 'char': (1, 8), 'signed char': (1, 8), 'unsigned char': (1, 8), 'short': (1, 16), 'unsigned short': (1, 16), 'int': (1, 32),
     'unsigned int': (1, 32), 'long': (1, 64), 'unsigned long': (1, 64), 'long long': (1, 64), 'unsigned long long': (1, 64), 'float': (2, 32),
     'double': (2, 64), 'long double': (2, 80)}
RED = {'accumulate': 2, 'reduce': 2, 'inner_product': 3, 'transform_reduce': None, 'exclusive_scan': 3}
LOG = re.compile(r'spdlog|logger|::(info|debug|trace|warn|error|critical|printf|fprintf|operator<<|cout)\b|operator<<|print')


def cl(t):
    return W.get(re.sub(r'\bconst\b|\bvolatile\b|&', '', t or '').strip())


def itval(t):
    """element type of an iterator type"""
    t = t or ''
    m = re.search(r'__normal_iterator<(?:const )?([\w ]+?)(?: const)? ?\*', t)
    if m:
        return cl(m.group(1))
    m = re.match(r'^(?:const )?([\w ]+?)(?: const)? ?\*(?: ?const)?$', t.strip())
    if m:
        return cl(m.group(1))
    return None


def leaves(n):
    if not isinstance(n, dict):
        return
    k = n.get('k')
    if k in ('bin', 'asg'):
        yield from leaves(n['a'])
        yield from leaves(n['b'])
    elif k in ('un', 'cast', 'paren') and isinstance(n.get('e'), dict):
        yield from leaves(n['e'])
    elif k == 'cond':
        yield from leaves(n['a'])
        yield from leaves(n['b'])
    else:
        yield n


ROUND = {'ceil', 'floor', 'round', 'lround', 'llround', 'rint', 'nearbyint', 'trunc', 'sqrt', 'pow', 'min', 'max', 'log2'}


def estimate(tu, n):
    """no floating-point data below: integers and literals only"""
    for x in leaves(n):
        c = cl(tu.ty(x))
        if c is None:
            return False
        if c[0] == 2:
            if x.get('k') in ('flt', 'float', 'real', 'int'):
                continue
            if x.get('k') == 'call' and (x.get('fn') or '').split('::')[-1] in ROUND:
                if all(estimate(tu, a) for a in x.get('args', [])):
                    continue
            if 'f' in x or 'v' in x and x.get('k') not in ('ref', 'member'):
                continue
            return False
    return True


def diagnostic(f):
    """ids of local variables whose value only reaches log messages"""
    decl, uses = {}, {}
    sink = {}        # id(ref node) -> None (log) | variable id
    for d in prog.nodes(f.d, 'decl'):
        for v in d['vars']:
            decl[v.get('id')] = v
            if isinstance(v.get('init'), dict):
                for x in prog.nodes(v['init'], 'ref'):
                    sink.setdefault(id(x), v.get('id'))
    for c in prog.nodes(f.d, 'call'):
        if LOG.search(c.get('fn') or '') or LOG.search(str(c.get('obj'))[:400]):
            for a in c.get('args', []):
                for x in prog.nodes(a, 'ref'):
                    sink[id(x)] = None
    for r in prog.nodes(f.d, 'ref'):
        uses.setdefault(r.get('id'), []).append(id(r))
    good = set(decl)
    while True:
        n = {v for v in good if all(u in sink and (sink[u] is None or sink[u] in good) for u in uses.get(v, []))}
        if n == good:
            return good
        good = n


def run(P, ck):
    ck.rule(RULE)
    n_c = n_r = 0
    for f in sorted(P.fns, key=lambda f: (f.rel, f.l, f.q)):
        if not f.body or '/attic/' in f.rel or '/examples/' in f.rel:
            continue
        ck.fn(f)
        tu = f.tu
        owner, logged, diag = {}, set(), None
        for d in prog.nodes(f.d, 'decl'):
            for v in d['vars']:
                if isinstance(v.get('init'), dict):
                    owner[id(strip_expl(v['init']))] = v
                    owner[id(v['init'])] = v
        for c in prog.nodes(f.d, 'call'):
            if LOG.search(c.get('fn') or '') or LOG.search(str(c.get('obj'))[:400]):
                for a in c.get('args', []):
                    for x in prog.nodes(a, 'cast'):
                        logged.add(id(x))

        def bad(n, msg, key):
            ck.violation(f'{f.rel}:{n.get("l")} ({f.q})', 'precision', msg, f'precision|{f.q}|{key}')

        for n in prog.nodes(f.d, 'cast'):
            if 'i' in n:
                continue
            to, fr = cl(tu.ty(n)), cl(tu.ty(n['e']))
            if not to or not fr:
                continue
            n_c += 1
            if fr[0] == 2 and (to[0] == 1 or to[0] == 2 and to[1] < fr[1]):
                if id(n) in logged:
                    continue
                v = owner.get(id(n))
                diag = diagnostic(f) if diag is None else diag
                if v is not None and v.get('id') in diag:
                    ck.ok(f'{f.rel}:{n["l"]} {f.q}: narrowed value only logged')
                elif to[0] == 1 and estimate(tu, n['e']):
                    ck.ok(f'{f.rel}:{n["l"]} {f.q}: integer estimate')
                elif literal(n['e']) or timing(n['e']):
                    pass
                else:
                    bad(n, f'floating-point data of {fr[1]} bits converted to ' + (f'{to[1]}-bit integer' if to[0] == 1 else f'{to[1]} bits'),
                        f'{fr}{to}|{"expl" if n.get("expl") else ""}')
            elif fr[0] == 1 and to[0] == 1 and to[1] < 32 and fr[1] > to[1] and to[1] > 1:
                if not charlike(tu, n):
                    bad(n, f'{fr[1]}-bit integer converted to {to[1]} bits', f'int{to[1]}')
            elif fr[0] == 1 and to[0] == 1 and fr[1] == 32 and to[1] == 64:
                e = strip(n['e'])
                if e.get('k') == 'bin' and e.get('op') == '<<' and 'i' not in e:
                    bad(n, '32-bit shift result widened to 64 bits', 'shift')
        for n in prog.nodes(f.d, 'asg'):
            op = n.get('op', '=')
            if op == '=':
                continue
            to, fr = cl(tu.ty(n['a'])), cl(tu.ty(strip(n['b'])))
            if to and fr:
                n_c += 1
                if fr[0] == 2 and not literal(n['b']) and (to[0] == 1 or to[1] < fr[1]):
                    bad(n, f'{fr[1]}-bit floating data combined into ' + ('an integer' if to[0] == 1 else f'{to[1]} bits'), f'op{op}')
        for n in prog.nodes(f.d, 'call'):
            q = n.get('fn') or ''
            nm = q.split('::')[-1].split('<')[0]
            if not q.startswith('std::') or nm not in RED:
                continue
            pos, args = RED[nm], n.get('args', [])
            if not args or 'execution' in (tu.ty(args[0]) or ''):
                args = args[1:]
            if pos is None or len(args) <= pos:
                continue
            el, it = itval(tu.ty(strip(args[0]))), cl(tu.ty(args[pos]))
            n_r += 1
            if not el or not it:
                ck.undecide(f'{f.rel}:{n["l"]} {f.q}: {nm} element {tu.ty(strip(args[0]))[:60]}')
            elif it[0] < el[0] or it[0] == el[0] and it[1] < el[1]:
                bad(n, f'{nm} over {el[1]}-bit elements is started from a {it[1]}-bit {"integer" if it[0] == 1 else "value"}', nm)
            else:
                ck.ok(f'{f.rel}:{n["l"]} {f.q}: {nm} in {it[1]} bits')
    ck.obligations += n_c
    ck.discharged += n_c - len(ck.viol)
    ck.count('conversions and compound assignments', n_c)
    ck.count('reductions', n_r)
    ck.need(n_c, 'no conversions found')


def strip_expl(n):
    return n


def timing(n):
    n = strip(n)
    return n.get('k') == 'call' and 'chrono::' in (n.get('fn') or '')


def literal(n):
    n = strip(n)
    while isinstance(n, dict) and n.get('k') == 'un':
        n = strip(n['e'])
    return isinstance(n, dict) and n.get('k') in ('flt', 'float', 'real', 'fp')


def charlike(tu, n):
    return 'char' in (tu.ty(n) or '')
