"""Views do not outlive what they look at; moved-from objects are not used.

Forward dataflow over the resolved syntax tree of every function in every instantiation.  A *view* is a variable
of iterator, pointer, span or reference type; its origins are the containers its initialiser is computed from.
 * after a container was resized, grown, emptied, erased from or assigned, a view into it is not used until it is
   set again (elements before an erased one and containers with reserved room are left out);
 * a range-for does not change the container it runs over;
 * a view of a local container (or of a temporary) is not returned or kept in a variable after the
   object is gone, and a closure that captures locals by reference does not leave the function;
 * an object that was moved from is not read before it gets a new value.
Facts are joined by intersection, so a violation is one that happens however the conditions in between turn out.
"""
import re
from flow import Flow

RULE = 'no use of an iterator, pointer, reference or view after its container changed or ended; no use of a moved-from object'
VEC = re.compile(r'^(?:const )?std::(?:__cxx11::)?(?:vector|basic_string|deque)<')
MOVABLE = re.compile(r'^(?:const )?std::(?:__cxx11::)?(?:vector|basic_string|deque|map|unordered_map|set|unique_ptr|shared_ptr|list|function)<|sparsexx::(?:dist_sparse|csr|csc|coo)_\w*matrix<')
BEGIN = {'begin', 'cbegin', 'data', 'c_str', 'front'}
VIEW = BEGIN | {'end', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'back', 'at', 'operator[]'}
GROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'append', 'resize', 'operator+='}
CHANGE = GROW | {'reserve', 'shrink_to_fit', 'clear', 'erase', 'assign', 'pop_back', 'operator='}
RESET = {'clear', 'assign', 'operator=', 'resize', 'reset', 'swap'}


def name(n):
    s = n.get('fn') or ''
    i = s.find('operator')
    if i >= 0:
        return s[i:].split('<')[0] if not s[i:].startswith('operator<') else s[i:]
    d, out = 0, ''
    for c in s:
        d += c == '<'
        d -= c == '>'
        out += c if d == 0 and c != '>' else ''
    return out.split('::')[-1]


def viewlike(t):
    t = t or ''
    return t.startswith(('__gnu_cxx::__normal_iterator<', 'std::reverse_iterator<', 'const __gnu_cxx::__normal_iterator<', 'std::span<', 'std::experimental::mdspan<',
                         'std::_Bit_iterator', 'std::_Deque_iterator')) or bool(re.search(r'\*(?: ?const)?$', t)) or 'mdspan<' in t.split('(')[0][:40]


class Life(Flow):
    def __init__(self, fn, P, sink):
        super().__init__(fn)
        self.P = P
        self.sink = sink
        self.own = {}           # locals and parameters held by value
        self.names = {}
        self.nviews = 0
        self.nmoves = 0
        self.nchange = 0
        self.lamvars = {}
        for p in fn.params:
            t = self.tu.types[p['t']] if p.get('t', -1) >= 0 else ''
            self.names[p['id']] = p['n']
            if not t.rstrip().endswith('&') and not viewlike(t):
                self.own[p['id']] = t

    def start(self):
        return {'views': {}, 'dead': {}, 'moved': {}, 'reserved': set(), 'alias': {}}

    def join(self, sts):
        a = sts[0]
        out = {'views': dict(a['views']), 'dead': dict(a['dead']), 'moved': dict(a['moved']), 'reserved': set(a['reserved']), 'alias': dict(a['alias'])}
        for b in sts[1:]:
            for k in ('dead', 'moved'):
                for x in list(out[k]):
                    if x not in b[k]:
                        del out[k][x]
            for x in list(out['views']):
                v = b['views'].get(x)
                if v is None:
                    del out['views'][x]
                else:
                    # into one container on every way only
                    out['views'][x] = {p: z for p, z in out['views'][x].items() if v.get(p) == z}
            out['reserved'] |= b['reserved']
            for x in list(out['alias']):
                if b['alias'].get(x) != out['alias'][x]:
                    del out['alias'][x]
        return out

    # paths of objects: ('v', id) or ('f', base, field)
    def path(self, n, st):
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'cast' and n.get('ck') in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', None):
                n = n['e']
                continue
            if k == 'ref' and n.get('dk') in ('local', 'param', 'static'):
                return st['alias'].get(n['id'], ('v', n['id']))
            if k == 'this':
                return ('this',)
            if k == 'un' and n['op'] == '*' and n['e'].get('k') == 'this':
                return ('this',)
            if k == 'mem' and n.get('dk') == 'field':
                b = self.path(n['base'], st)
                return ('f', b, n['n']) if b and not (n.get('arrow') and b != ('this',)) else None
            if k == 'call' and n.get('repo') and not n['args'] and n.get('obj'):
                f = self.P.by_fk.get(n.get('fk'))
                b = self.path(n['obj'], st)
                if f and f.body and b and len(f.body.get('s', [])) == 1 and f.body['s'][0]['k'] == 'ret' and '&' in f.tu.types[f.d['rt']]:
                    e = f.body['s'][0]['e']
                    while e and e.get('k') == 'cast':
                        e = e['e']
                    if e and e.get('k') == 'mem' and e['base'].get('k') == 'this':
                        return ('f', b, e['n'])
                return None
            return None
        return None

    def origins(self, n, st):
        """containers a view computed by n looks into: {path: 'begin' | 'other'}"""
        if not isinstance(n, dict):
            return {}
        k = n.get('k')
        if k == 'ref':
            return dict(st['views'].get(n.get('id'), {}))
        if k == 'cast':
            return self.origins(n['e'], st)
        if k == 'un':
            if n['op'] in ('*', '&', '++', '--'):
                r = self.origins(n['e'], st)
                return r
            return {}
        if k == 'sub':
            return {p: 'other' for p in self.origins(n['base'], st)}
        if k == 'mem':
            p = self.path(n, st)
            if p in st['views']:
                return dict(st['views'][p])
            return self.origins(n['base'], st)
        if k == 'bin':
            r = self.origins(n['a'], st) if viewlike(self.ty(n['a'])) else {}
            if viewlike(self.ty(n['b'])):
                r.update(self.origins(n['b'], st))
            return {p: 'other' for p in r}
        if k == 'cond':
            r = self.origins(n['a'], st)
            b = self.origins(n['b'], st)
            return {p: z for p, z in r.items() if b.get(p) == z}
        if k == 'ctor':
            if viewlike(self.ty(n)):
                out = {}
                for a in n['args']:
                    if viewlike(self.ty(a)):
                        out.update(self.origins(a, st))
                return out
            return {}
        if k == 'call':
            nm = name(n)
            o = n.get('obj')
            if o is None and nm in ('operator[]', 'operator*', 'operator->', 'operator+', 'operator-') and n['args']:
                o = n['args'][0]
            if o is not None:
                t = self.ty(o)
                if VEC.match(t) and nm in VIEW:
                    p = self.path(o, st)
                    if p:
                        return {p: 'begin' if nm in BEGIN else 'other'}
                    if nm in ('data', 'begin', 'end', 'c_str', 'cbegin', 'cend') and self.temporary(o):
                        return {('tmp',): 'begin'}
                    return {}
                if viewlike(t):
                    r = self.origins(o, st)
                    return r if nm in ('operator*', 'operator->', 'operator()', 'data', 'data_handle', 'begin') else {p: 'other' for p in r}
                return {}
            if nm in ('begin', 'cbegin', 'end', 'cend', 'data', 'rbegin', 'rend') and len(n['args']) == 1 and VEC.match(self.ty(n['args'][0])):
                p = self.path(n['args'][0], st)
                return {p: 'begin' if nm in BEGIN else 'other'} if p else {}
            if nm in ('move', 'forward', 'addressof'):
                return self.origins(n['args'][0], st) if n['args'] else {}
            if viewlike(self.ty(n)) and ((n.get('fn') or '').startswith('std::') or n.get('repo')):
                out = {}
                for a in n['args']:
                    if viewlike(self.ty(a)):
                        out.update(self.origins(a, st))
                return {p: 'other' for p in out}
        return {}

    def temporary(self, n):
        while n.get('k') == 'cast':
            n = n['e']
        if n.get('k') == 'ctor':
            return True
        if n.get('k') == 'call' and n.get('repo'):
            f = self.P.by_fk.get(n.get('fk'))
            return f is not None and not re.search(r'[&*]\s*$', f.tu.types[f.d['rt']])
        return n.get('k') == 'call' and name(n) in ('operator+', 'to_string', 'str', 'substr')

    def local(self, p):
        return p and p[0] == 'v' and p[1] in self.own or p == ('tmp',)

    def show(self, p):
        if p == ('tmp',):
            return 'a temporary'
        if p[0] == 'v':
            return self.names.get(p[1], '?')
        if p[0] == 'this':
            return 'this'
        return self.show(p[1]) + '.' + p[2]

    # events
    def declare(self, v, st):
        t = self.tu.types[v['t']] if v.get('t', -1) >= 0 else ''
        i = v['id']
        self.names[i] = v['n']
        st['dead'].pop(i, None)
        st['moved'].pop(('v', i), None)
        st['views'].pop(i, None)
        st['alias'].pop(i, None)
        for p in [p for p in st['moved'] if p[0] == 'f' and p[1] == ('v', i)]:
            del st['moved'][p]
        init = v.get('init')
        e = init
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['e']
        if isinstance(e, dict) and e.get('k') == 'lambda':
            self.lamvars[i] = e
        ref = t.rstrip().endswith('&')
        if ref and init:
            p = self.path(init, st)
            if p and p[0] != 'this':
                st['alias'][i] = p
                return
        if (ref or viewlike(t)) and init:
            o = self.origins(init, st)
            if o:
                self.nviews += 1
                if ('tmp',) in o and not ref:
                    self.report(v, 'tmp', f'{v["n"]} keeps a view of a temporary that ends with this statement')
                st['views'][i] = {p: z for p, z in o.items() if p != ('tmp',)}
        elif not ref and not v.get('static'):
            self.own[i] = t

    def assign(self, n, st):
        a = n['a']
        while a.get('k') == 'cast':
            a = a['e']
        if a.get('k') == 'ref' and n['op'] == '=':
            self.setview(a['id'], n['b'], st)
            return
        if a.get('k') == 'mem' and n['op'] == '=' and self.path(a, st):
            self.setview(self.path(a, st), n['b'], st)
            return
        self.expr(a, st)

    def setview(self, i, e, st):
        st['dead'].pop(i, None)
        o = self.origins(e, st) if isinstance(e, dict) else {}
        if o:
            st['views'][i] = {p: z for p, z in o.items() if p != ('tmp',)}
        else:
            st['views'].pop(i, None)
        p = i if isinstance(i, tuple) else st['alias'].get(i, ('v', i))
        self.unmove(p, st)

    def unmove(self, p, st):
        for q in [q for q in st['moved'] if q == p or q[0] == 'f' and q[1] == p]:
            del st['moved'][q]

    def lamof(self, ref):
        return self.lamvars.get(ref.get('id'))

    def expr(self, n, st):
        if isinstance(n, dict) and n.get('k') == 'call' and name(n) == 'operator=' :
            o = n.get('obj') or (n['args'][0] if n['args'] else None)
            rhs = n['args'][0] if n.get('obj') else (n['args'][1] if len(n['args']) > 1 else None)
            self.expr(rhs, st)
            b = o
            while isinstance(b, dict) and b.get('k') == 'cast':
                b = b['e']
            if isinstance(b, dict) and b.get('k') == 'ref' and viewlike(self.ty(b)):
                self.setview(b['id'], rhs, st)
                return
            if isinstance(b, dict) and b.get('k') == 'mem' and viewlike(self.ty(b)) and self.path(b, st):
                self.nviews += 1
                self.setview(self.path(b, st), rhs, st)
                return
            if isinstance(b, dict) and b.get('k') == 'call' and name(b) == 'tie':
                for a in b['args']:
                    p = self.path(a, st)
                    if p:
                        if VEC.match(self.ty(a)):
                            self.change(n, p, 'operator=', st)
                        self.unmove(p, st)
                return
            p = self.path(o, st)
            if p:
                self.moves(n, st)
                if VEC.match(self.ty(o)):
                    self.change(n, p, 'operator=', st)
                self.unmove(p, st)
                return
            self.expr(o, st)
            self.visit(n, st)
            return
        if isinstance(n, dict) and n.get('k') == 'call' and n.get('obj') and name(n) in RESET:
            p = self.path(n['obj'], st)
            if p and p in st['moved']:
                self.unmove(p, st)
        super().expr(n, st)

    def visit(self, n, st):
        k = n.get('k')
        if k == 'ref' and n.get('dk') in ('local', 'param'):
            i = n['id']
            d = st['dead'].get(i)
            if d:
                self.report(n, 'dead', f'{n["n"]} is used after {d[0]} (line {d[1]}) changed {d[2]}, which it looks into')
                del st['dead'][i]
            p = st['alias'].get(i, ('v', i))
            m = st['moved'].get(p)
            if m:
                self.report(n, 'moved', f'{n["n"]} is used after it was moved from (line {m})')
                del st['moved'][p]
        elif k == 'mem' and n.get('dk') == 'field':
            p = self.path(n, st)
            d = st['dead'].pop(p, None) if p else None
            if d:
                self.report(n, 'dead', f'{self.show(p)} is used after {d[0]} (line {d[1]}) changed {d[2]}, which it looks into')
            m = st['moved'].get(p)
            if m:
                self.report(n, 'moved', f'{self.show(p)} is used after it was moved from (line {m})')
                del st['moved'][p]
        elif k == 'ctor' and n.get('cm') == 'move' or k == 'call' and name(n) in ('push_back', 'emplace_back', 'operator=') or k == 'call' and n.get('repo') or k == 'ctor':
            self.moves(n, st)
        if k == 'call':
            self.change_call(n, st)
        elif k == 'lambda':
            pass

    def moves(self, n, st):
        """std::move(x) handed to something that takes the value over"""
        for j, a in enumerate(n['args']):
            e = a
            while isinstance(e, dict) and e.get('k') == 'cast':
                e = e['e']
            if isinstance(e, dict) and e.get('k') == 'call' and name(e) == 'move' and (e.get('fn') or '').startswith('std::move') and len(e['args']) == 1:
                if n['k'] == 'call' or n['k'] == 'ctor':
                    pt = (n.get('pt') or [])
                    t = self.tu.types[pt[j]] if j < len(pt) and isinstance(pt[j], int) and pt[j] >= 0 else ''
                    if t.rstrip().endswith('&') and not t.rstrip().endswith('&&'):
                        continue
                    if n['k'] == 'call' and n.get('repo') and t.rstrip().endswith('&&'):
                        continue        # the callee decides
                p = self.path(e['args'][0], st)
                if p and p[0] != 'this' and MOVABLE.search(self.ty(e['args'][0])):
                    self.nmoves += 1
                    st['moved'][p] = n.get('l')

    def change(self, n, p, what, st, arg=None):
        self.nchange += 1
        if what in GROW and p in st['reserved']:
            return
        for i, o in st['views'].items():
            if p in o and i not in st['dead']:
                if what in ('erase', 'pop_back') and o[p] == 'begin':
                    continue
                st['dead'][i] = (what, n.get('l'), self.show(p))

    def change_call(self, n, st):
        o = n.get('obj')
        nm = name(n)
        args = n['args']
        if o is None and nm in ('operator+=',) and args:
            o, args = args[0], args[1:]
        if o is not None and VEC.match(self.ty(o)) and nm in CHANGE:
            p = self.path(o, st)
            if p is None:
                return
            if nm == 'reserve':
                self.change(n, p, nm, st)
                st['reserved'].add(p)
                return
            if nm == 'resize' and any(self.mentions(a, p, st) for a in args):
                nm = 'erase'
            if nm in ('insert', 'emplace') and not VEC.match(self.ty(o)):
                return
            self.change(n, p, nm, st)
            return
        if n.get('repo'):
            s = structural(self.P, n.get('fk'))
            for j in s:
                e = o if j == 'this' else args[j] if j < len(args) else None
                if e is not None and VEC.match(self.ty(e)):
                    p = self.path(e, st)
                    if p:
                        self.change(n, p, name(n), st)

    def mentions(self, n, p, st):
        if isinstance(n, list):
            return any(self.mentions(x, p, st) for x in n)
        if not isinstance(n, dict):
            return False
        if n.get('k') in ('ref', 'mem', 'call') and self.path(n, st) == p:
            return True
        if n.get('k') == 'ref' and (p in st['views'].get(n.get('id'), {}) or n.get('dk') == 'local' and 'const' in self.ty(n)):
            return True
        if n.get('k') == 'call' and name(n) in ('min',):
            return True
        return any(self.mentions(x, p, st) for x in n.values() if isinstance(x, (dict, list)))

    def range_begin(self, n, st):
        p = self.path(n['range'], st)
        if p and VEC.match(self.ty(n['range'])):
            st['views'][('r', n['l'])] = {p: 'other'}
            st['dead'].pop(('r', n['l']), None)

    def enter_range(self, n, st):
        d = st['dead'].pop(('r', n['l']), None)
        if d:
            self.report(n, 'dead', f'the loop runs over {d[2]} while {d[0]} (line {d[1]}) changes it')
        v = n['var']
        v = v[0] if isinstance(v, list) else v
        if v:
            w = dict(v)
            w['init'] = None
            self.declare(w, st)
            t = self.tu.types[v['t']] if v.get('t', -1) >= 0 else ''
            if t.rstrip().endswith('&'):
                p = self.path(n['range'], st)
                self.own.pop(v['id'], None)
                if p:
                    st['views'][v['id']] = {p: 'other'}

    def range_end(self, n, st):
        st['views'].pop(('r', n['l']), None)
        st['dead'].pop(('r', n['l']), None)

    def ret(self, n, st):
        if self.lam or not n.get('e'):
            return
        t = self.tu.types[self.fn.d['rt']] if self.fn.d.get('rt', -1) >= 0 else ''
        if viewlike(t) or t.rstrip().endswith('&'):
            o = dict(self.origins(n['e'], st))
            if t.rstrip().endswith('&'):
                p = self.path(n['e'], st)
                if p:
                    o[p] = 'other'
            for p in o:
                q = p
                while q and q[0] == 'f':
                    q = q[1]
                if self.local(q):
                    self.report(n, 'ret', f'returns a view of {self.show(p)}, which ends with the function')
        if 'std::function<' in t or 'lambda at' in t:
            e = n['e']
            while isinstance(e, dict) and (e.get('k') == 'cast' or e.get('k') == 'ctor' and len(e['args']) == 1):
                e = e['e'] if e['k'] == 'cast' else e['args'][0]
            if isinstance(e, dict) and e.get('k') == 'ref':
                e = self.lamvars.get(e.get('id'))
            if isinstance(e, dict) and e.get('k') == 'lambda':
                byname = {v: k for k, v in self.names.items()}
                for c in e['caps']:
                    if c.get('byref') and byname.get(c.get('n')) in self.own:
                        self.report(n, 'ret', f'returns a closure that refers to {c["n"]}, which ends with the function')

    def report(self, n, kind, msg):
        self.sink.append((n.get('l'), kind, msg))


_STR = {}


def structural(P, fk):
    """parameters (by position, 'this' for the object) whose container a function may reallocate"""
    if fk in _STR:
        return _STR[fk]
    _STR[fk] = ()
    f = P.by_fk.get(fk)
    if f is None or not f.body:
        return ()
    import prog
    ids = {p['id']: j for j, p in enumerate(f.params) if f.tu.types[p['t']].rstrip().endswith('&') and not f.tu.types[p['t']].startswith('const')}
    out = set()
    if ids:
        for n in prog.nodes(f.body, 'call'):
            nm = name(n)
            o = n.get('obj')
            args = n['args']
            if o is None and nm in ('operator=', 'operator+=') and args:
                o, args = args[0], args[1:]
            if nm in CHANGE and o is not None and o.get('k') == 'ref' and o.get('id') in ids and VEC.match(f.tu.ty(o)):
                if nm in ('erase', 'pop_back') or nm == 'resize':
                    continue
                out.add(ids[o['id']])
            elif n.get('repo'):
                for j in structural(P, n.get('fk')):
                    e = o if j == 'this' else args[j] if j < len(args) else None
                    if isinstance(e, dict) and e.get('k') == 'ref' and e.get('id') in ids:
                        out.add(ids[e['id']])
    _STR[fk] = tuple(sorted(out))
    return _STR[fk]


def run(P, ck):
    ck.rule(RULE)
    for f in P.fns:
        if not f.body:
            continue
        sink = []
        L = Life(f, P, sink)
        end = L.run(L.start())
        for st in L.rets + ([end] if end is not None else []):
            for p, d in st['dead'].items():
                if isinstance(p, tuple) and p[0] == 'f' and p[1] == ('this',):
                    sink.append((d[1], 'left', f'{L.show(p)} is left looking into {d[2]} as it was before {d[0]}'))
        if L.nviews or L.nmoves or L.nchange:
            ck.fn(f)
        ck.count('views followed', L.nviews)
        ck.count('container changes', L.nchange)
        ck.count('moves', L.nmoves)
        bad = set()
        for l, kind, msg in sink:
            bad.add((l, kind))
            ck.violation(f'{f.rel}:{l} ({f.q})', 'lifetime', msg, key=f'{f.rel}|{f.q.split("<")[0]}|{kind}|{msg.split(" (line")[0]}')
        for _ in range(max(0, L.nviews + L.nmoves - len(bad))):
            ck.ok()
