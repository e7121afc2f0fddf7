"""Every loop moves towards its end.

For every for, while, do and range-for loop of the repository, in every instantiation:
 * something the loop condition reads is changed by the loop, or the loop is left by break, return or throw;
 * a counter compared with `<`/`<=` is not only ever decreased, one compared with `>`/`>=` not only increased, an
   unsigned one is not compared with `>= 0`, and a counter of 16 bits or less is not bounded by a wider value;
 * there is no way through the body back to the condition on which nothing at all is changed (a `continue` in front of
   the step): such an iteration would repeat for ever;
 * the container whose size bounds the loop does not grow in every iteration;
 * the step of a nested loop changes the nested counter, not the one of the loop around it.
"""
import re
import prog
from flow import Flow
from rules.lifetime import name, CHANGE
from rules.uninit import strip

RULE = 'each loop changes what its condition reads, in the direction of its end, on every way through the body'
PURE = re.compile(r'^(?:spdlog|fmt)::|^std::(?:min|max|abs|distance|next|prev|make_pair|tie|get|begin|end|size|sqrt|fabs|isnan)\b|omp_get')
CONST = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'count', 'test', 'any', 'none', 'all', 'at', 'operator[]', 'operator()', 'back', 'front', 'data', 'extent',
         'operator*', 'operator->', 'operator==', 'operator!=', 'operator<', 'operator&', 'operator|', 'operator^', 'operator-', 'operator+', 'find', 'get', 'to_ulong',
         'to_ullong', 'operator<=', 'operator>', 'operator>=', 'operator bool', 'what', 'c_str', 'length', 'eof', 'good', 'info', 'debug', 'trace', 'warn', 'error', 'critical'}


def key(n):
    """a variable or member (None: something else)"""
    n = strip(n)
    if not isinstance(n, dict):
        return None
    if n.get('k') == 'ref' and n.get('dk') in ('local', 'param', 'binding', 'static', 'global'):
        return ('v', n.get('id'))
    if n.get('k') == 'mem':
        b = key(n['base'])
        return ('f', b or ('this',), n['n'])
    if n.get('k') in ('sub',):
        return key(n['base'])
    if n.get('k') == 'un' and n['op'] == '*':
        return key(n['e'])
    if n.get('k') == 'call' and name(n) in ('operator[]', 'operator()', 'at', 'operator*', 'operator->', 'front', 'back'):
        return key(n['obj'] if n.get('obj') else n['args'][0] if n['args'] else None)
    return None


def reads(n):
    out = set()
    for x in prog.nodes(n, 'ref', 'mem'):
        k = key(x)
        if k:
            out.add(k)
    return out


def writes(tu, n):
    """[(key, 'up' | 'down' | 'any')] of a node itself (operands not included)"""
    k = n.get('k')
    if k == 'asg':
        b = strip(n['b'])
        t = key(n['a'])
        d = 'any'
        pos = isinstance(b, dict) and (b.get('k') == 'int' and b.get('i', 0) > 0 or 'unsigned' in tu.ty(n['b']) and False)
        if n['op'] == '+=' and pos:
            d = 'up'
        elif n['op'] == '-=' and pos:
            d = 'down'
        elif n['op'] == '=' and isinstance(b, dict) and b.get('k') == 'bin' and b['op'] in '+-' and key(b['a']) == t and strip(b['b']).get('k') == 'int':
            d = 'up' if b['op'] == '+' else 'down'
        return [(t, d)]
    if k == 'un' and n['op'] in ('++', '--'):
        return [(key(n['e']), 'up' if n['op'] == '++' else 'down')]
    if k == 'un' and n['op'] == '&':
        return [(key(n['e']), 'any')]
    if k in ('call', 'ctor'):
        nm = name(n) if k == 'call' else ''
        fn = n.get('fn') or ''
        out = []
        args = n['args']
        o = n.get('obj')
        if k == 'call' and PURE.search(fn):
            return []
        if nm in ('operator++', 'operator--'):
            return [(key(o if o else args[0] if args else None), 'up' if nm == 'operator++' else 'down')]
        if o is not None and nm not in CONST:
            out.append((key(o), 'any'))
        pt = n.get('pt') or []
        off = 1 if k == 'call' and n.get('op') and not o and len(pt) + 1 == len(args) else 0
        if off and nm not in CONST:
            out.append((key(args[0]), 'any'))
        for j, a in enumerate(args):
            t = tu.types[pt[j - off]] if 0 <= j - off < len(pt) and isinstance(pt[j - off], int) and pt[j - off] >= 0 else ''
            if (re.search(r'[&*]\s*(const)?$', t) and not t.startswith('const ')) or 'iterator' in t and nm not in CONST:
                out.append((key(a), 'any'))
        if k == 'call' and not out and nm not in CONST and not n.get('repo') and not fn.startswith('std::'):
            out.append((None, 'call'))
        if k == 'call' and n.get('lam') is not None:
            out.append((None, 'any'))
        if k == 'call' and n.get('repo') and nm not in CONST:
            out.append((None, 'call'))
        return out
    return []


def exits(n, top=True):
    """does control leave the loop from inside"""
    if isinstance(n, list):
        return any(exits(x, top) for x in n)
    if not isinstance(n, dict):
        return False
    k = n.get('k')
    if k in ('ret', 'throw'):
        return True
    if k == 'break':
        return top
    if k == 'lambda':
        return False
    if k == 'call' and re.search(r'\b(?:exit|abort|terminate|rethrow_exception|throw_with_nested)$', n.get('fn') or ''):
        return True
    if k in ('for', 'while', 'do', 'rfor', 'switch'):
        return any(exits(v, False) for v in n.values() if isinstance(v, (dict, list)))
    return any(exits(v, top) for v in n.values() if isinstance(v, (dict, list)))


class Still(Flow):
    """is there a way through a loop body on which nothing is changed"""

    def start(self):
        return {'w': False}

    def join(self, sts):
        return {'w': all(s['w'] for s in sts)}

    def assign(self, n, st):
        st['w'] = True

    def visit(self, n, st):
        if any(True for _ in writes(self.tu, n)):
            st['w'] = True

    def declare(self, v, st):
        pass


def once(F, body):
    st = F.start()
    F.loops.append(([], []))
    end = F.stmt(body, st)
    brk, cont = F.loops.pop()
    return [s for s in [end] + cont if s is not None]


def tautology(tu, c):
    c = strip(c)
    if isinstance(c, dict) and c.get('k') == 'bin' and c['op'] == '>=':
        b = strip(c['b'])
        return b.get('k') == 'int' and b.get('i') == 0 and 'unsigned' in tu.ty(strip(c['a']))
    if isinstance(c, dict) and c.get('k') == 'bin' and c['op'] == '<=':
        a = strip(c['a'])
        return a.get('k') == 'int' and a.get('i') == 0 and 'unsigned' in tu.ty(strip(c['b']))
    return False


def conj(c):
    c = strip(c)
    if isinstance(c, dict) and c.get('k') == 'bin' and c['op'] == '&&':
        return conj(c['a']) + conj(c['b'])
    return [c] if isinstance(c, dict) else []


BITS = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64,
        'long long': 64, 'unsigned long long': 64}


def width(t):
    return BITS.get(re.sub(r'\b(const|volatile)\b|&', '', t or '').strip())


def judge(f, n, around):
    """problem with the loop, or None"""
    tu = f.tu
    k = n['k']
    c = n.get('c') if k != 'rfor' else None
    parts = conj(c) if c else []
    const = c is None or len(parts) == 1 and (parts[0].get('i') not in (None, 0) and parts[0].get('k') in ('int', 'bool', 'cast'))
    ws = []
    for part in (n.get('inc'), n['body'], c):
        if part:
            for x in prog.nodes(part, 'asg', 'un', 'call', 'ctor'):
                ws += writes(tu, x)
    changed = {}
    for t, d in ws:
        changed.setdefault(t, set()).add(d)
    out = exits(n['body'])
    if const:
        if not out:
            return 'the loop has no way out'
        return None
    rd = reads(c)
    anycall = None in changed and 'any' in changed[None]
    live = {t for t in rd if t in changed or any(u and t and (u == t or u[0] == 'f' and u[1] == t or t[0] == 'f' and t[1] == u) for u in changed)}
    hascall = any(not (PURE.search(x.get('fn') or '') or name(x) in CONST) for x in prog.nodes(c, 'call'))
    if not live and not out and not hascall and not anycall and not any(t[0] == 'f' for t in rd):
        return 'nothing the loop condition reads is changed by the loop'
    for p in parts:
        if p.get('k') == 'call' and name(p) in ('operator!=', 'operator<') or p.get('k') == 'bin' and p['op'] in ('<', '<=', '>', '>=', '!='):
            if p.get('k') == 'call':
                l, r = (p.get('obj'), p['args'][0]) if p.get('obj') else (p['args'][0], p['args'][1]) if len(p['args']) == 2 else (None, None)
                op = '<' if name(p) == 'operator<' else '!='
            else:
                l, r, op = p['a'], p['b'], p['op']
            kl, kr = key(l), key(r)
            if strip(l).get('k') not in ('ref', 'mem') if isinstance(strip(l), dict) else True:
                kl = None
            if isinstance(strip(r), dict) and strip(r).get('k') not in ('ref', 'mem'):
                kr = None
            dl = changed.get(kl, set()) if kl else set()
            dr = changed.get(kr, set()) if kr else set()
            if len(parts) == 1 and not out:
                others = any(t in changed for t in reads(r)) if kl else True
                if op in ('<', '<=') and dl == {'down'} and not others:
                    return 'the counter moves away from its upper bound'
                if op in ('>', '>=') and dl == {'up'} and not others:
                    return 'the counter moves away from its lower bound'
            if tautology(tu, p) and 'up' not in dl:
                return 'an unsigned counter is never below zero'
            if op in ('<', '<=') and kl and width(tu.ty(strip(l))) in (8, 16) and (width(tu.ty(strip(r))) or 0) > width(tu.ty(strip(l))) and strip(r).get('i') is None and 'up' in dl:
                return 'the counter is too narrow for its bound'
            # a bound that grows with every iteration
            if op in ('<', '!=') and len(parts) == 1 and not out:
                for x in prog.nodes(r, 'call'):
                    if name(x) == 'size' and x.get('obj'):
                        v = key(x['obj'])
                        body = n['body']['s'] if n['body']['k'] == 'block' else [n['body']]
                        for s in body:
                            s = strip(s)
                            if isinstance(s, dict) and s.get('k') == 'call' and name(s) in ('push_back', 'emplace_back') and s.get('obj') and key(s['obj']) == v and v:
                                return 'the container that bounds the loop grows in every iteration'
    if k == 'for' and n.get('inc') and not out:
        inc = [t for x in prog.nodes(n['inc'], 'asg', 'un', 'call') for t, d in writes(tu, x) if t]
        if inc and not any(t in rd for t in inc) and any(t in around for t in inc) and not any(t in changed for t in rd if t not in inc):
            return 'the step changes the counter of an outer loop'
    if k in ('while', 'do') or not n.get('inc'):
        F = Still(f)
        for s in once(F, n['body']):
            cs = F.copy(s)
            F.expr(c, cs)
            if not cs['w']:
                return 'there is a way through the body on which nothing is changed'
    return None


def run(P, ck):
    ck.rule(RULE)
    for f in P.fns:
        if not f.body:
            continue
        todo = [(f.body, frozenset())]
        found = 0
        while todo:
            n, around = todo.pop()
            if isinstance(n, list):
                todo += [(x, around) for x in n]
                continue
            if not isinstance(n, dict):
                continue
            if n.get('k') in ('for', 'while', 'do'):
                found += 1
                msg = judge(f, n, around)
                ck.count(n['k'] + ' loops')
                if msg:
                    ck.violation(f'{f.rel}:{n["l"]} ({f.q})', 'progress', msg, key=f'{f.rel}|{f.q.split("<")[0]}|{msg}')
                else:
                    ck.ok()
                mine = around | (reads(n['c']) if n.get('c') else set())
                todo += [(v, mine) for v in n.values() if isinstance(v, (dict, list))]
            else:
                todo += [(v, around) for v in n.values() if isinstance(v, (dict, list))]
        if found:
            ck.fn(f)
