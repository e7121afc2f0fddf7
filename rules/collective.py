"""Every process of a communicator makes the same sequence of collective calls.

Per function (helpers inlined; larger callees that communicate count as collective events and are
checked on their own): the effect trace gives each collective event with the condition and the loops
under which it runs.  The process rank is the source of a taint which flows through values, memory
and conditions; results of collectives that deliver the same value everywhere end it.  Where a tainted
condition or loop bound controls a collective event, the sequences of events that remain for
rank 0, 1, .. of the same world must be equal.
"""
from fractions import Fraction
import prog, refcmp, sym
from sym import P as Poly, C, Ptr, Vec, Obj, Tup, Alias, ATOMS, c_subst, c_free, show_cond
from rules import traces

SAME = {'MPI_Allreduce': [1], 'MPI_Bcast': [0], 'MPI_Allgather': [3], 'MPI_Allgatherv': [3], 'MPI_Iallreduce': [1], 'MPI_Ibcast': [0]}
NOTC = {'MPI_Comm_rank', 'MPI_Comm_size', 'MPI_Init', 'MPI_Finalize', 'MPI_Wait', 'MPI_Waitall', 'MPI_Send', 'MPI_Recv', 'MPI_Isend', 'MPI_Irecv',
        'MPI_Sendrecv', 'MPI_Type_free', 'MPI_Type_commit', 'MPI_Type_contiguous', 'MPI_Type_create_struct', 'MPI_Get_address', 'MPI_Wtime',
        'MPI_Get_count', 'MPI_Probe', 'MPI_Iprobe', 'MPI_Test', 'MPI_Testall', 'MPI_Ssend', 'MPI_Win_lock_all', 'MPI_Win_unlock_all',
        'MPI_Win_lock', 'MPI_Win_unlock', 'MPI_Win_flush', 'MPI_Win_flush_all', 'MPI_Win_flush_local_all', 'MPI_Get', 'MPI_Put', 'MPI_Accumulate',
        'MPI_Fetch_and_op', 'MPI_Get_accumulate', 'MPI_Compare_and_swap', 'MPI_Op_create', 'MPI_Op_free', 'MPI_Abort', 'MPI_Error_string', 'MPI_Initialized'}
WRAP = {'macis::allreduce': [1, 0], 'macis::bcast': [0]}
RULE = ('collective uniformity: for every function the sequence of collective calls does not depend on the rank '
        '(rank taint through values, memory and conditions; residual sequences compared per rank)')


def is_rank(a):
    if a[0] in ('v', 'fld', 'val', 'ldf') and 'comm_rank_' in str(a[1:]):
        return True
    return a[0] == 'out' and len(a) > 3 and a[3] == 'MPI_Comm_rank' or a[0] == 'ret' and a[1] in ('sparsexx::detail::get_mpi_rank', 'macis::comm_rank')


def ends(a, reach):
    """value delivered identically to all processes"""
    if a[0] == 'out' and len(a) > 3:
        return a[3] in SAME or a[3] in WRAP or a[3] in reach
    return a[0] in ('ret', 'val') and any(isinstance(x, str) and (x in reach or x in WRAP) for x in a[1:3])


class Taint:
    def __init__(self, reach):
        self.reach = reach
        self.bases = set()
        self.n = 0
        self.memo = {}

    def add(self, b):
        if b not in self.bases:
            self.bases.add(b)
            self.memo = {}

    def drop(self, b):
        if b in self.bases:
            self.bases.discard(b)
            self.memo = {}

    def of(self, x):
        if isinstance(x, Poly):
            return any(self.atom(i) for i in x.free())
        if isinstance(x, C):
            return self.of(x.c)
        if isinstance(x, Ptr):
            return self.of(x.off)
        if isinstance(x, (tuple, frozenset, list)):
            return any(self.of(y) for y in x)
        if isinstance(x, Tup):
            return any(self.of(y) for y in x.v)
        return False

    def atom(self, i):
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = False
        a = ATOMS[i]
        r = False
        if is_rank(a):
            r = True
        elif ends(a, self.reach):
            r = False
        elif a[0] == 'ld':
            b = a[1][1] if a[1][0] == 'at' else a[1]
            r = b in self.bases or self.of(a[2:])
        else:
            r = self.of(a[1:])
        self.memo[i] = r
        return r


def cond_taint(T, e):
    if e.guards is not True and T.of(e.guards):
        return True
    return any(T.of(x) for l in e.loops for x in (l.lo, l.hi, l.cond))


def rank_atoms(x, out, seen):
    if isinstance(x, Poly):
        for i in x.free():
            if i not in seen:
                seen.add(i)
                a = ATOMS[i]
                if is_rank(a):
                    out.add((i, None))
                elif a[0] == 'out' and len(a) > 3 and a[3] == 'MPI_Comm_size':
                    out.add((i, 3))
                else:
                    rank_atoms(a[1:], out, seen)
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x:
            rank_atoms(y, out, seen)


def run(P, ck):
    ck.rule(RULE)
    names = {n.get('fn') for f in P.fns if f.body for n in prog.nodes(f.d, 'call') if (n.get('fn') or '').startswith('MPI_')}
    coll = names - NOTC
    ck.need(coll, 'no collective calls found')
    R = {f for f in traces.reaching(P, coll) if '/attic/' not in f.rel and '/examples/' not in f.rel}
    big = {f.fk or f.q for f in P.fns if f.body and not refcmp.small(f)}
    events = {f.q for f in R if (f.fk or f.q) in big}
    for f in sorted(R, key=lambda f: (f.rel, f.l, f.q)):
        if (f.fk or f.q) not in big:
            continue
        ex = traces.trace(P, f, noinline=big - {f.fk or f.q})
        if ex is None:
            ck.undecide(f'{f.q}: trace out of reach')
            continue
        ck.fn(f)
        T = Taint(events)
        seq = []
        bad = False
        for e in ex.eff:
            if e.kind in ('st', 'acc'):
                b = e.base[1] if e.base[0] == 'at' else e.base
                if T.of(e.val) or T.of(e.off) or cond_taint(T, e):
                    T.add(b)
            elif e.kind in ('call', 'ctor'):
                iscoll = e.name in coll or e.name in events
                outs = SAME.get(e.name) or (WRAP.get(e.name) if e.name in events else None)
                if iscoll:
                    seq.append((e, cond_taint(T, e)))
                if outs is not None and not cond_taint(T, e):
                    for k in outs:
                        a = e.args[k] if k < len(e.args or []) else None
                        if isinstance(a, (Ptr, Vec)) and a.base[0] != 'addr':
                            T.drop(a.base)
                            break
        if not seq:
            continue
        ck.count('functions with collectives')
        ck.count('collective events', len(seq))
        if not any(t for _, t in seq):
            ck.ok(f'{f.q}: {len(seq)} collective events, none depends on the rank')
            continue
        # what remains for each rank
        ra = set()
        for e, t in seq:
            if t:
                for x in [e.guards] + [y for l in e.loops for y in (l.lo, l.hi, l.cond)]:
                    if x is not True and x is not None:
                        rank_atoms(x, ra, set())
        res = {}
        for r in (0, 1, 2):
            mp = {i: Poly.c(r if c is None else c) for i, c in ra}
            out = []
            for e, t in seq:
                g = c_subst(e.guards, mp) if e.guards is not True else True
                if g is False:
                    continue
                ls = tuple(l.subst(mp) for l in e.loops)
                if any(isinstance(l.hi, Poly) and isinstance(l.lo, Poly) and (l.hi - l.lo).is_zero() for l in ls):
                    continue
                out.append((e, (e.name, g, tuple((l.lo, l.hi, l.cond) for l in ls))))
            res[r] = out
        base = res[0]
        for r in (1, 2):
            ks, kb = [k for _, k in res[r]], [k for _, k in base]
            # complementary conditions make one call
            ks, kb = fuse(ks), fuse(kb)
            if ks != kb:
                j = next((i for i, (x, y) in enumerate(zip(ks, kb)) if x != y), min(len(ks), len(kb)))
                side = res[r] if j < len(ks) else base
                e = next((x for x, t in seq if t), seq[0][0])
                for x, k in side:
                    if k == (ks[j] if j < len(ks) else kb[j]):
                        e = x
                        break
                ck.violation(e.where, 'collective', f'{e.name} is reached by rank {r} and rank 0 under different conditions: '
                             f'{show_cond(e.guards)[:300] if e.guards is not True else "loop bounds"}', f'collective|{f.q}|{e.name}|{j}')
                bad = True
                break
        if not bad:
            ck.ok(f'{f.q}: {len(seq)} collective events, same sequence for every rank')
    ck.assumptions.append('arguments and input data documented as global have the same value on every process of the communicator')


def fuse(ks):
    out = []
    for k in ks:
        if out and out[-1][0] == k[0] and out[-1][2] == k[2] and sym.c_not(out[-1][1]) == k[1]:
            out[-1] = (k[0], True, k[2])
        else:
            out.append(k)
    return out
