"""Forward dataflow over the structured syntax tree (no path enumeration: states are merged at joins).

A client subclasses Flow: `visit(n, st)` is called for every expression node after its operands, in
evaluation order, and changes the state in place; `assign(n, st)` for an assignment (target not visited as
a use), `declare(v, st)` for a declared variable, `join([st...])` merges.  Loops are taken once and twice, so
that what one iteration leaves behind meets the next one; a loop that is not entered at all does not take
part in what follows it (facts are about paths on which the loop does something).
"""


class Flow:
    def __init__(self, fn):
        self.fn = fn
        self.tu = fn.tu
        self.rets = []
        self.loops = []
        self.calls = 0
        self.lam = []

    # client interface
    def copy(self, st):
        return {k: (v.copy() if isinstance(v, (dict, set)) else v) for k, v in st.items()}

    def join(self, sts):
        raise NotImplementedError

    def visit(self, n, st):
        pass

    def declare(self, v, st):
        pass

    def assign(self, n, st):
        pass

    def ret(self, n, st):
        pass

    def enter_range(self, n, st):
        """start of an iteration of a range-for"""

    def ty(self, n):
        return self.tu.ty(n)

    # engine
    def merge(self, sts):
        sts = [s for s in sts if s is not None]
        if not sts:
            return None
        return sts[0] if len(sts) == 1 else self.join(sts)

    def run(self, st):
        for i in self.fn.d.get('inits') or []:
            if i.get('e'):
                self.expr(i['e'], st)
        return self.stmt(self.fn.body, st)

    def stmts(self, l, st):
        for s in l:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, n, st):
        if n is None or st is None:
            return st
        k = n['k']
        if k == 'block':
            return self.stmts(n['s'], st)
        if k == 'decl':
            for v in n['vars']:
                if v.get('init'):
                    self.expr(v['init'], st)
                self.declare(v, st)
            return st
        if k == 'if':
            for x in (n.get('init'), n.get('var')):
                if x:
                    st = self.stmt(x, st)
            if n.get('constexpr') and n.get('taken'):
                return self.stmt(n.get(n['taken']), st)
            self.expr(n['c'], st)
            a = self.stmt(n['then'], self.copy(st))
            b = self.stmt(n['else'], self.copy(st)) if n['else'] else self.copy(st)
            if (a is None) != (b is None):
                self.guarded(n, a if b is None else b)
            return self.merge([a, b])
        if k in ('for', 'while', 'do', 'rfor'):
            return self.loop(n, st)
        if k == 'ret':
            if n.get('e'):
                self.expr(n['e'], st)
            self.ret(n, st)
            if self.lam:
                self.lam[-1].append(st)
            else:
                self.rets.append(st)
            return None
        if k == 'throw':
            if n.get('e'):
                self.expr(n['e'], st)
            return None
        if k == 'break':
            if self.loops:
                self.loops[-1][0].append(st)
            return None
        if k == 'cont':
            for brk, cont in reversed(self.loops):
                if cont is not None:
                    cont.append(st)
                    break
            return None
        if k == 'switch':
            self.expr(n['c'], st)
            self.loops.append(([], None))
            outs, cur, dflt = [], None, False
            body = n['body']['s'] if n['body'] and n['body']['k'] == 'block' else [n['body']]
            for s in body:
                while s and s['k'] in ('case', 'default'):
                    dflt |= s['k'] == 'default'
                    cur = self.merge([cur, self.copy(st)])
                    s = s['body']
                cur = self.stmt(s, cur) if cur is not None else None
            brk, _ = self.loops.pop()
            return self.merge(brk + [cur] + ([] if dflt else [st]))
        if k in ('case', 'default', 'label'):
            return self.stmt(n.get('body'), st)
        if k == 'omp':
            for c in n.get('clauses') or []:
                pass
            return self.stmt(n['body'], st)
        if k == 'try':
            a = self.stmt(n['body'], self.copy(st))
            hs = []
            for h in n['handlers']:
                b = h.get('body') if h.get('k') not in ('block',) else h
                hs.append(self.stmt(b, self.copy(st)))
            return self.merge([a] + hs)
        if k in ('null_stmt', '?'):
            return st
        self.expr(n, st)
        return st

    def guarded(self, n, st):
        """one side of a condition leaves the function or the iteration"""

    def loop(self, n, st):
        k = n['k']
        if k == 'for' and n['init']:
            st = self.stmt(n['init'], st)
        if k == 'rfor':
            self.expr(n['range'], st)
            self.range_begin(n, st)
        exits = []
        cur = st
        self.depth = getattr(self, 'depth', 0) + 1
        for it in range(2):
            if cur is None:
                break
            cur = self.copy(cur)
            if k == 'rfor':
                self.enter_range(n, cur)
            if k in ('for', 'while') and n.get('c'):
                self.expr(n['c'], cur)
                if it:
                    exits.append(self.copy(cur))
            self.loops.append(([], []))
            cur = self.stmt(n['body'], cur)
            brk, cont = self.loops.pop()
            exits += brk
            cur = self.merge([cur] + cont)
            if cur is None:
                break
            if k == 'for' and n.get('inc'):
                self.expr(n['inc'], cur)
            if k == 'do':
                self.expr(n['c'], cur)
            if k in ('do', 'rfor'):
                exits.append(self.copy(cur))
        if k in ('for', 'while') and cur is not None and n.get('c'):
            cur = self.copy(cur)
            self.expr(n['c'], cur)
            exits.append(cur)
        self.depth -= 1
        if k == 'rfor':
            exits = [e for e in exits if e is not None]
            for e in exits:
                self.range_end(n, e)
            if not exits:
                return None
        return self.merge(exits)

    def range_begin(self, n, st):
        pass

    def range_end(self, n, st):
        pass

    def expr(self, n, st):
        if n is None:
            return
        if isinstance(n, list):
            for x in n:
                self.expr(x, st)
            return
        k = n.get('k')
        if k == 'bin' and n['op'] in ('&&', '||'):
            self.expr(n['a'], st)
            c = self.copy(st)
            self.expr(n['b'], c)
            self.replace(st, self.join([st, c]))
        elif k == 'cond':
            self.expr(n['c'], st)
            a, b = self.copy(st), self.copy(st)
            self.expr(n['a'], a)
            self.expr(n['b'], b)
            self.replace(st, self.join([a, b]))
        elif k == 'asg':
            self.expr(n['b'], st)
            self.assign(n, st)
            return
        elif k == 'lambda':
            self.visit(n, st)
            return
        elif k == 'call':
            self.calls += 1
            self.expr(n.get('obj'), st)
            for a in n['args']:
                self.expr(a, st)
            for x in ([n] if n.get('lam') is not None else []) + [a for a in n['args'] if isinstance(a, dict)]:
                self.called_lambda(n, x, st)
        elif k == 'sizeof':
            return
        else:
            for key in ('base', 'idx', 'e', 'a', 'b', 'args', 'size', 'obj'):
                v = n.get(key)
                if isinstance(v, (dict, list)):
                    self.expr(v, st)
        self.visit(n, st)

    def replace(self, st, new):
        if new is not st:
            st.clear()
            st.update(new)

    def called_lambda(self, call, x, st):
        lam = None
        while isinstance(x, dict) and x.get('k') in ('cast', 'ctor') and (x.get('e') or len(x.get('args') or []) == 1):
            x = x.get('e') or x['args'][0]
        if not isinstance(x, dict):
            return
        if x.get('k') == 'lambda':
            lam = x
        elif x.get('k') == 'call' and x is call and x.get('lam') in self.tu.lams:
            lam = self.tu.lams[x['lam']][0]
        elif x.get('k') == 'ref' and 'lambda at' in self.ty(x):
            lam = self.lamof(x)
        if lam is None or not lam.get('spec') or len(self.lam) > 3:
            return
        for sp in lam['spec'][:1]:
            self.lam.append([])
            saved, self.loops = self.loops, []
            e = self.stmt(sp['body'], self.copy(st))
            self.loops = saved
            outs = [s for s in self.lam.pop() + [e] if s is not None]
            if outs:
                self.replace(st, self.merge(outs))

    def lamof(self, ref):
        return None
