"""Typestate of nonblocking messages: idle -> in flight (posted) -> complete (waited for).

On the fully inlined effect trace of every function that posts a nonblocking message
(directly or through a helper that hands the request back):
 * no effect between the post and the wait for its request reads (receive) or changes
   (send, receive) the message buffer, or resizes / reallocates it;
 * the request is waited for, in this function or by the caller it is handed to;
 * the wait is not under a condition unrelated to the one under which the message is posted;
 * a buffer local to the posting function does not go out of scope while in flight.
"""
import prog, norm
from sym import P as Poly, C, Ptr, Vec, Obj, Tup, Alias, ATOMS, c_free, show_cond, show_base
from rules import traces

POST = {'MPI_Irecv': 'recv', 'MPI_Isend': 'send', 'MPI_Issend': 'send', 'MPI_Irsend': 'send', 'MPI_Ibsend': 'send'}
WAIT = {'MPI_Wait': 0, 'MPI_Waitall': 1}
OTHER = {'MPI_Waitany', 'MPI_Waitsome', 'MPI_Test', 'MPI_Testall', 'MPI_Testany', 'MPI_Testsome', 'MPI_Request_free', 'MPI_Cancel'}
RULE = __doc__.split('\n')[0] + ' Rule: buffer untouched, request completed, on every path of the inlined trace'


def bases(x, out):
    if isinstance(x, (Ptr, Vec)):
        out.add(x.base)
    elif isinstance(x, Alias):
        bases(x.lv, out)
    elif isinstance(x, (tuple, list)):
        for y in x:
            bases(y, out)
    elif isinstance(x, Tup):
        for y in x.v:
            bases(y, out)
    elif isinstance(x, Obj):
        for y in (x.fields or {}).values():
            bases(y, out)
    elif isinstance(x, Poly):
        for k in x.free():
            out.add(ATOMS[k])
    return out


def reqbase(b):
    return b[1] if b and b[0] == 'at' else b


def has_out(v, name):
    return isinstance(v, Poly) and any(ATOMS[k][0] == 'out' and len(ATOMS[k]) > 3 and ATOMS[k][3] == name for k in v.free())


def is_local(b):
    return b is not None and b[0] in ('loc', 'new', 'var')


class Msg:
    def __init__(self, i, e):
        self.i, self.e = i, e
        self.way = POST[e.name]
        a = e.args[0] if e.args else None
        self.buf = reqbase(a.base) if isinstance(a, (Ptr, Vec)) else None
        r = e.args[6] if len(e.args) > 6 else None
        self.req = None
        if isinstance(r, Ptr) and r.base and r.base[0] != 'addr':
            self.req = reqbase(r.base)
        self.reqvar = r.base if isinstance(r, Ptr) and r.base and r.base[0] == 'addr' else None


def touches(e, m):
    """how effect e conflicts with the message in flight, or None"""
    if e.kind in ('st', 'acc'):
        if reqbase(e.base) == m.buf:
            return 'writes'
    elif e.kind in ('vnew', 'vcopy', 'vmove'):
        if e.base == m.buf:
            return 'reallocates'
    elif e.kind in ('call', 'ctor', 'scan'):
        if e.name in POST:
            return None
        for a in e.args or []:
            if isinstance(a, (Ptr, Vec)) and reqbase(a.base) == m.buf:
                if m.way == 'recv':
                    return f'passes to {e.name}'
                if not norm.const_arg(e, a):
                    return f'passes to {e.name}'
    if m.way == 'recv' and e.kind not in ('ret', 'phi', 'omp', 'alloc') and any(reqbase(b) == m.buf for b, _ in norm.reads_of(e)):
        return 'reads'
    return None


def conj(c):
    return [] if c is True else list(c[1]) if c[0] == 'and' else [c]


def atoms_of(e):
    s = set(c_free(e.guards)) if e.guards is not True else set()
    for l in e.loops:
        for x in (l.lo, l.hi):
            if isinstance(x, Poly):
                s |= set(x.free())
        if l.cond is not True:
            s |= set(c_free(l.cond))
    return s


def leaves(ids):
    """free symbols below the given atoms"""
    out, st, seen = set(), list(ids), set()
    while st:
        i = st.pop()
        if i in seen:
            continue
        seen.add(i)
        sub = []

        def go(x):
            if isinstance(x, Poly):
                sub.extend(x.free())
            elif isinstance(x, (tuple, frozenset, list)):
                for y in x:
                    go(y)
        go(ATOMS[i][1:])
        out.add(i)
        st += sub
    return out


def analyse(P, f, ck):
    """True when a request is handed to the caller"""
    ex = traces.trace(P, f)
    if ex is None:
        ck.undecide(f'{f.q}: trace out of reach')
        return True
    ck.fn(f)
    E = ex.eff
    opened = False
    for i, e in enumerate(E):
        if e.kind != 'call' or e.name not in POST or len(e.args or []) < 7:
            continue
        m = Msg(i, e)
        ck.count('posted messages')
        if m.buf is None:
            ck.undecide(f'{f.q}: buffer of {e.name} at line {e.line} not identified')
            continue
        # where the request goes
        q = m.req
        held = False
        if q is None:
            for g in E[i + 1:]:
                if g.kind == 'call' and g.name == e.name:
                    break
                if g.kind == 'st' and has_out(g.val, e.name):
                    q = reqbase(g.base)
                    break
                if g.kind == 'ret' and len(g.stack) == 1 and any(has_out(a, e.name) for a in g.args or []):
                    held = True
        end = None
        wait = None
        back = held
        for j in range(i + 1, len(E)):
            g = E[j]
            if g.kind == 'call' and g.name in OTHER:
                end, wait = j, 'other'
                break
            if g.kind == 'call' and g.name in WAIT:
                r = g.args[WAIT[g.name]] if len(g.args) > WAIT[g.name] else None
                rb = reqbase(r.base) if isinstance(r, (Ptr, Vec)) else None
                if rb is not None and (rb == q or rb == m.reqvar):
                    end, wait = j, g
                    break
                if rb is None or q is None or rb[0] == 'addr':
                    end, wait = j, 'other'
                    break
            if g.kind == 'ret' and len(g.stack) == 1 and q is not None and any(reqbase(b) == q for b in bases(g.args or [], set())):
                back = True
            if g.kind in ('vcopy', 'vmove') and q is not None and g.args and any(reqbase(b) == q for b in bases(g.args, set())):
                back = True
        loc = f'{f.q}: {e.name} of {show_base(m.buf)}'
        key = f'inflight|{f.q}|{e.name}|{i}'
        bad = False
        for g in E[i + 1:end if end is not None else len(E)]:
            t = touches(g, m)
            if t and not (q is not None and reqbase(g.base) == q and m.buf == q):
                ck.violation(g.where, 'inflight', f'{t} {show_base(m.buf)} while the {"receive" if m.way == "recv" else "send"} posted at '
                             f'{e.fn.rel}:{e.line} is in flight' + (f' (completed only at line {E[end].line})' if end is not None else ''), key + '|' + t)
                bad = True
                break
        if bad:
            continue
        if end is None:
            if back or q is None or not is_local(q):
                opened = True
                if is_local(m.buf) and m.buf[0] == 'loc' and not any(g.kind == 'ret' and len(g.stack) == 1 and any(reqbase(b) == m.buf for b in bases(g.args or [], set())) for g in E):
                    ck.violation(e.where, 'inflight', f'the buffer {show_base(m.buf)} is local to {f.q} and dies while the message is in flight', key + '|scope')
                else:
                    ck.ok(loc + ': request handed on, buffer untouched here')
            else:
                ck.violation(e.where, 'inflight', f'the request of {e.name} on {show_base(m.buf)} is never waited for', key + '|nowait')
            continue
        if wait == 'other':
            ck.undecide(loc + f': completed by {E[end].name}, not followed')
            continue
        # condition of the wait
        extra = [c for c in conj(wait.guards) if c not in conj(e.guards)]
        if extra or len([l for l in wait.loops if l not in e.loops]) > 0:
            ids = set()
            for c in extra:
                ids |= set(c_free(c))
            mine = leaves(atoms_of(e))
            la = leaves(ids)
            if extra and not (la & mine) and not any('size' in str(ATOMS[k][:3]) for k in la):
                ck.violation(wait.where, 'inflight', f'{wait.name} runs only if {" and ".join(show_cond(c) for c in extra)[:200]}, but the message at '
                             f'{e.fn.rel}:{e.line} is posted regardless', key + '|cond')
            else:
                ck.undecide(loc + ': the condition of the wait is not comparable')
            continue
        ck.ok(loc + f': untouched over {end - i} effects until {wait.name} at line {wait.line}')
    return opened


def run(P, ck, only=None):
    ck.rule(RULE)
    hits = [f for f in P.fns if f.body and any(n.get('fn') in POST for n in prog.nodes(f.d, 'call'))]
    ck.need(hits, 'no nonblocking messages found')
    callers = {}
    for f in P.fns:
        if f.body:
            for n in prog.nodes(f.d, 'call', 'ctor'):
                g = P.by_fk.get(n.get('fk')) if n.get('fk') else None
                if g is not None:
                    callers.setdefault(g, []).append(f)
    st, seen = list(hits), set()
    while st:
        f = st.pop(0)
        if f in seen or f.rel.find('/examples/') >= 0:
            continue
        seen.add(f)
        if analyse(P, f, ck):
            st += callers.get(f, [])
    ck.count('functions followed', len(seen))
    ck.assumptions.append('objects with different allocation sites do not overlap; the C++ library and MPI follow their specifications')
