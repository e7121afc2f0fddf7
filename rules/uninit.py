"""Every variable and member has a value before it is read.

Forward dataflow over the resolved syntax tree of every function in every instantiation: scalars, pointers,
enumerations and built-in arrays declared without a value are unset until they are assigned, their address is
taken or they are handed to something that may set them.
 * a variable is not read while it is unset;
 * a variable set on one side of a condition only is not read afterwards, when nothing in between leaves the
   function and the reading is as unconditional as the declaration;
 * a constructor gives every scalar member a value (initialiser, default member initialiser or assignment);
 * objects of plain structs are not read member-wise before the member is set.
"""
import re
from flow import Flow
from rules.lifetime import name

RULE = 'no scalar variable, array or member is read before it has a value on every way to the reading; constructors set every scalar member'
SCALAR = re.compile(r'^(?:unsigned |signed )?(?:int|long|short|char|bool|float|double|long double|unsigned|long long)(?: int| long)*$|\*(?: const)?$')
ARR = re.compile(r'^(.*?) ?\[\d*\]$|^std::array<(.*), ?\d+(?:UL)?>$')


def scalar(t, enums=()):
    t = re.sub(r'^(const|volatile) ', '', t or '').strip()
    return bool(SCALAR.search(t)) or t in enums


def array(t):
    m = ARR.match(re.sub(r'^const ', '', t or ''))
    return bool(m and scalar(m.group(1) or m.group(2)))


def strip(n):
    while isinstance(n, dict) and n.get('k') == 'cast':
        n = n['e']
    return n


class Init(Flow):
    def __init__(self, fn, P, sink, plain):
        super().__init__(fn)
        self.P = P
        self.sink = sink
        self.plain = plain
        self.names = {}
        self.n = 0
        self.lamvars = {}
        self.level = 0
        self.declevel = {}
        self.exits = 0

    def start(self):
        return {'un': {}}

    def join(self, sts):
        out = {}
        for s in sts:
            for x, v in s['un'].items():
                out[x] = v
        for x in out:
            vs = [s['un'].get(x) for s in sts]
            if any(v is None for v in vs):
                # unset on one side only
                v = next(v for v in vs if v is not None)
                out[x] = ('M', self.exits, self.level) if v[0] == 'U' else v
        return {'un': out}

    def guarded(self, n, st):
        self.exits += 1

    def stmt(self, n, st):
        if n is not None and n['k'] in ('if', 'for', 'while', 'do', 'rfor', 'switch', 'try'):
            self.level += 1
            r = super().stmt(n, st)
            self.level -= 1
            if n['k'] != 'if':
                # which cases are possible, and which way a loop is left, is not known
                if r is not None:
                    for x in [x for x, v in r['un'].items() if v[0] == 'M']:
                        del r['un'][x]
            return r
        return super().stmt(n, st)

    def declare(self, v, st):
        t = self.tu.types[v['t']] if v.get('t', -1) >= 0 else ''
        i = v['id']
        self.names[i] = v['n']
        self.declevel[i] = self.level
        st['un'].pop(i, None)
        e = v.get('init')
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['e']
        if isinstance(e, dict) and e.get('k') == 'lambda':
            self.lamvars[i] = e
        if v.get('static') or v.get('constexpr'):
            return
        if e is None or isinstance(e, dict) and e.get('k') == 'ctor' and e.get('cm') == 'default' and not e['args']:
            if (e is None and scalar(t)) or array(t):
                self.n += 1
                st['un'][i] = ('U', 0, 0)
            elif isinstance(e, dict) and self.plain.get(re.sub(r'^const ', '', t)):
                for fl in self.plain[re.sub(r'^const ', '', t)]:
                    self.n += 1
                    st['un'][(i, fl)] = ('U', 0, 0)

    def lamof(self, ref):
        return self.lamvars.get(ref.get('id'))

    def target(self, n):
        """variable an lvalue is (part of)"""
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'cast':
                n = n['e']
            elif k == 'sub':
                n = n['base']
            elif k == 'call' and name(n) in ('operator[]', 'at', 'front', 'back') and n.get('obj'):
                n = n['obj']
            elif k == 'ref':
                return n.get('id')
            elif k == 'mem':
                b = n['base']
                while isinstance(b, dict) and b.get('k') == 'cast':
                    b = b['e']
                if b.get('k') == 'this':
                    return ('this', n['n'])
                if b.get('k') == 'ref':
                    return (b.get('id'), n['n'])
                return None
            else:
                return None

    def index(self, n, st):
        """operands of an lvalue other than the variable itself"""
        while isinstance(n, dict):
            k = n.get('k')
            if k == 'cast':
                n = n['e']
            elif k == 'sub':
                self.expr(n['idx'], st)
                n = n['base']
            elif k == 'call' and name(n) in ('operator[]', 'at') and n.get('obj'):
                self.expr(n['args'], st)
                n = n['obj']
            elif k == 'mem':
                n = n['base']
            elif k == 'ref':
                return True
            else:
                self.expr(n, st)
                return False
        return False

    def set(self, t, st):
        st['un'].pop(t, None)
        if not isinstance(t, tuple):
            for x in [x for x in st['un'] if isinstance(x, tuple) and x[0] == t]:
                del st['un'][x]

    def assign(self, n, st):
        if n['op'] == '=':
            self.index(n['a'], st)
            self.set(self.target(n['a']), st)
        else:
            self.expr(n['a'], st)

    def expr(self, n, st):
        if isinstance(n, dict):
            k = n.get('k')
            if k == 'un' and n['op'] == '&':
                self.index(n['e'], st)
                self.set(self.target(n['e']), st)
                return
            if k == 'call' and name(n) == 'operator=':
                o = n.get('obj') or (n['args'][0] if n['args'] else None)
                self.expr(n['args'][-1] if n['args'] else None, st)
                self.index(o, st)
                self.set(self.target(o), st)
                return
            if k in ('call', 'ctor'):
                pt = n.get('pt') or []
                off = 1 if k == 'call' and n.get('op') and not n.get('obj') and len(pt) + 1 == len(n['args']) else 0
                self.expr(n.get('obj') if not isinstance(n.get('obj'), dict) or self.target(n['obj']) is None or n['obj'].get('k') == 'call' else None, st)
                if isinstance(n.get('obj'), dict):
                    if name(n) in ('operator[]', 'at', 'front', 'back', 'size'):
                        self.expr(n['obj'], st)
                    else:
                        self.index(n['obj'], st)
                        self.set(self.target(n['obj']), st)
                for j, a in enumerate(n['args']):
                    t = self.tu.types[pt[j - off]] if 0 <= j - off < len(pt) and isinstance(pt[j - off], int) and pt[j - off] >= 0 else ''
                    mut = re.search(r'&\s*$', t) and not t.startswith('const ') or not t or re.search(r'\*\s*(const)?$', t) and array(self.tu.ty(strip(a)))
                    decay = isinstance(a, dict) and a.get('k') == 'cast' and a.get('ck') == 'ArrayToPointerDecay'
                    if (mut or decay) and self.target(a) is not None:
                        self.index(a, st)
                        self.set(self.target(a), st)
                    else:
                        self.expr(a, st)
                if k == 'call':
                    for x in ([n] if n.get('lam') is not None else []) + [a for a in n['args'] if isinstance(a, dict)]:
                        self.called_lambda(n, x, st)
                return
            if k == 'cast' and n.get('ck') == 'ArrayToPointerDecay':
                self.index(n['e'], st)
                self.set(self.target(n['e']), st)
                return
            if k == 'sub':
                b = n['base']
                while isinstance(b, dict) and b.get('k') == 'cast':
                    b = b['e']
                self.expr(n['idx'], st)
                self.expr(b, st)
                return
            if k == 'lambda':
                for c in n['caps']:
                    if c.get('byref'):
                        for i, nm in self.names.items():
                            if nm == c.get('n'):
                                self.set(i, st)
                return
            if k == 'mem':
                t = self.target(n)
                if t is not None:
                    if t in st['un']:
                        self.read(n, t, st)
                    if not (isinstance(t, tuple) and t[0] == 'this'):
                        return
        super().expr(n, st)

    def visit(self, n, st):
        if n.get('k') == 'ref' and n.get('id') in st['un'] and n.get('dk') in ('local', 'param'):
            self.read(n, n['id'], st)

    def read(self, n, t, st):
        v = st['un'][t]
        nm = n.get('n') if not isinstance(t, tuple) else ('this.' if t[0] == 'this' else self.names.get(t[0], '?') + '.') + t[1]
        if v[0] == 'U':
            self.sink.append((n.get('l'), nm, f'{nm} is read before it has a value'))
        elif v[1] == self.exits and self.level <= (self.declevel.get(t[0] if isinstance(t, tuple) else t, 0)):
            self.sink.append((n.get('l'), nm, f'{nm} is read here although one side of a condition leaves it without a value'))
        self.set(t, st)

    def declare_ref(self, v, st):
        pass


def records(P):
    recs = {}
    for t in P.tus:
        for r in t.recs:
            ty = t.types[r['t']] if isinstance(r.get('t'), int) and r['t'] >= 0 else r['q']
            recs.setdefault(ty, (t, r))
    return recs


def run(P, ck):
    ck.rule(RULE)
    recs = records(P)
    plain = {}
    byctor = {}
    for ty, (t, r) in recs.items():
        fl = [x['n'] for x in r['fields'] if not x.get('init') and (scalar(t.types[x['t']]) or array(t.types[x['t']]))]
        if not any(m.get('ctor') and m.get('user') for m in r['methods']):
            plain[ty] = fl
        for m in r['methods']:
            if m.get('ctor') and not m.get('deleted') and m.get('cm') not in ('copy', 'move'):
                byctor[m['fk']] = fl
    nctor = 0
    for f in P.fns:
        if not f.body:
            continue
        sink = []
        F = Init(f, P, sink, plain)
        st = F.start()
        ctor = None
        if f.d.get('ctor') and not f.d.get('defaulted') and f.d.get('cm') not in ('copy', 'move'):
            ctor = byctor.get(f.fk)
        if ctor:
            inits = f.d.get('inits') or []
            if any(i.get('deleg') for i in inits):
                ctor = None
        if ctor:
            given = {i.get('field') for i in f.d.get('inits') or [] if i.get('e') and not (i['e'].get('k') == 'ctor' and i['e'].get('cm') == 'default' and not i.get('written'))}
            for x in ctor:
                if x not in given:
                    st['un'][('this', x)] = ('U', 0, 0)
        end = F.run(st)
        outs = F.rets + ([end] if end is not None else [])
        if ctor is not None:
            nctor += 1
            for x in ctor:
                if outs and all(s['un'].get(('this', x), ('', 0))[0] == 'U' for s in outs):
                    sink.append((f.l, x, f'the constructor leaves {x} without a value'))
                else:
                    ck.ok()
        if F.n or ctor:
            ck.fn(f)
        bad = set()
        for l, nm, msg in sink:
            bad.add(nm)
            ck.violation(f'{f.rel}:{l} ({f.q})', 'uninit', msg, key=f'{f.rel}|{f.q.split("<")[0]}|{nm}|{msg}')
        ck.count('variables declared without a value', F.n)
        for _ in range(max(0, F.n - len(bad))):
            ck.ok()
    ck.count('constructors', nctor)
