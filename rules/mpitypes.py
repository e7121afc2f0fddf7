"""Element types of messages.

For every MPI communication call, in every instantiation: the MPI datatype handed along (followed
through the type-trait classes, wrapper objects and derived-type constructors) describes the C++ type
the buffer argument points to; send and receive side of one call use the same type; a derived type is
committed before it is used and covers exactly the bytes of one element.
"""
import re
import prog, refcmp
from sym import P as Poly, C, Ptr, Vec, Obj, ATOMS, show
from rules import traces
from rules.omprace import strip

RULE = ('message types: the datatype of every MPI communication call is the one of the C++ element type of its buffers; '
        'derived types are committed before use and have the size of the element')
# (buffer position, datatype position)
POS = {'MPI_Allreduce': [(0, 3), (1, 3)], 'MPI_Reduce': [(0, 3), (1, 3)], 'MPI_Iallreduce': [(0, 3), (1, 3)], 'MPI_Scan': [(0, 3), (1, 3)],
       'MPI_Exscan': [(0, 3), (1, 3)], 'MPI_Bcast': [(0, 2)], 'MPI_Ibcast': [(0, 2)],
       'MPI_Send': [(0, 2)], 'MPI_Ssend': [(0, 2)], 'MPI_Recv': [(0, 2)], 'MPI_Isend': [(0, 2)], 'MPI_Irecv': [(0, 2)],
       'MPI_Sendrecv': [(0, 2), (5, 7)],
       'MPI_Allgather': [(0, 2), (3, 5)], 'MPI_Allgatherv': [(0, 2), (3, 6)], 'MPI_Gather': [(0, 2), (3, 5)], 'MPI_Gatherv': [(0, 2), (3, 6)],
       'MPI_Scatter': [(0, 2), (3, 5)], 'MPI_Scatterv': [(0, 3), (4, 6)], 'MPI_Alltoall': [(0, 2), (3, 5)], 'MPI_Alltoallv': [(0, 3), (4, 7)],
       'MPI_Iallgather': [(0, 2), (3, 5)]}
PAIR = {'MPI_Allgather', 'MPI_Gather', 'MPI_Alltoall', 'MPI_Scatter', 'MPI_Allgatherv', 'MPI_Gatherv', 'MPI_Scatterv', 'MPI_Alltoallv'}
# class, size in bytes (LP64)
MPIT = {'double': ('f', 8), 'float': ('f', 4), 'long_double': ('f', 16), 'int': ('i', 4), 'unsigned': ('u', 4), 'unsigned_int': ('u', 4), 'char': ('c', 1),
        'signed_char': ('i', 1), 'unsigned_char': ('u', 1), 'byte': ('b', 1), 'short': ('i', 2), 'unsigned_short': ('u', 2), 'long': ('i', 8),
        'unsigned_long': ('u', 8), 'long_long': ('i', 8), 'long_long_int': ('i', 8), 'unsigned_long_long': ('u', 8), 'int8_t': ('i', 1), 'uint8_t': ('u', 1),
        'int16_t': ('i', 2), 'uint16_t': ('u', 2), 'int32_t': ('i', 4), 'uint32_t': ('u', 4), 'int64_t': ('i', 8), 'uint64_t': ('u', 8),
        'cxx_bool': ('l', 1), 'cxx_cplex': ('z', 8), 'cxx_dblcplex': ('z', 16), 'c_float_complex': ('z', 8), 'c_double_complex': ('z', 16),
        'c_complex': ('z', 8), '2int': ('pii', 8), 'double_int': ('pdi', 12)}
CXX = {'double': ('f', 8), 'float': ('f', 4), 'long double': ('f', 16), 'int': ('i', 4), 'unsigned int': ('u', 4), 'unsigned': ('u', 4), 'char': ('c', 1),
       'signed char': ('i', 1), 'unsigned char': ('u', 1), 'short': ('i', 2), 'unsigned short': ('u', 2), 'long': ('i', 8), 'unsigned long': ('u', 8),
       'long long': ('i', 8), 'unsigned long long': ('u', 8), 'bool': ('l', 1), 'std::complex<double>': ('z', 16), 'std::complex<float>': ('z', 8)}


def elem(t):
    """C++ element type of a pointer type; None if not a pointer"""
    t = re.sub(r'\bconst\b', '', t).strip()
    if not t.endswith('*'):
        return None
    return re.sub(r'\s+', ' ', t[:-1]).strip()


def cxx(t):
    if t in CXX:
        return CXX[t]
    m = re.match(r'^std::bitset<(\d+)[uUlL]*>$', t)
    if m:
        return ('bits', (int(m.group(1)) + 63) // 64 * 8)
    return None


def mpit(d, derived):
    """('f', 8) .. for an MPI datatype value; (None, text) if it cannot be resolved"""
    b = getattr(d, 'base', None)
    if isinstance(d, Poly):
        b = d.t and next(iter(d.t))
    m = re.search(r"ompi_mpi_(\w+?)['\\\"]", str(b))
    if b and str(b[0]) in ('addr', 'g', 'var') and m and m.group(1) in MPIT:
        return MPIT[m.group(1)]
    for k, v in derived.items():
        if k in repr(b) + repr(getattr(d, 'off', '')):
            return v
    return None


def run(P, ck):
    ck.rule(RULE)
    names = set(POS) | {'MPI_Type_contiguous', 'MPI_Type_create_struct', 'MPI_Type_vector'}
    big = {f.fk or f.q for f in P.fns if f.body and not refcmp.small(f)}
    tot = 0
    for f in sorted(P.fns, key=lambda f: (f.rel, f.l, f.q)):
        if not f.body or '/attic/' in f.rel or '/examples/' in f.rel:
            continue
        own = {id(n): n for n in prog.nodes(f.d, 'call') if n.get('fn') in names}
        if not own:
            continue
        ex = traces.trace(P, f, noinline=big - {f.fk or f.q})
        if ex is None:
            ck.undecide(f'{f.q}: trace out of reach')
            continue
        ck.fn(f)
        types = {}      # event id of a derived type -> (size, committed)
        seen = set()
        for e in ex.eff:
            if e.kind != 'call':
                continue
            if e.name == 'MPI_Type_contiguous' and len(e.args) == 3:
                old = mpit(e.args[1], {})
                n = e.args[0].const() if isinstance(e.args[0], Poly) else None
                types[key(e.args[2])] = [old[1] * n if old and n is not None else None, False, e]
            elif e.name == 'MPI_Type_commit' and e.args:
                k = key(e.args[0])
                if k in types:
                    types[k][1] = True
            if e.name not in POS or id(e.node) not in own or id(e.node) in seen:
                continue
            seen.add(id(e.node))
            args, nodes = e.args or [], e.node['args']
            tot += 1
            got = []
            for ib, it in POS[e.name]:
                if max(ib, it) >= len(args):
                    continue
                n = strip(nodes[ib])
                et = elem(f.tu.ty(n) or '')
                if et is None or et == 'void':
                    if n.get('k') == 'int':        # MPI_IN_PLACE
                        continue
                    ck.undecide(f'{e.where}: buffer {ib} of {e.name} has no element type')
                    continue
                d = mpit(args[it], {})
                der = None
                if d is None:
                    der = derived(args[it], types, ex)
                if der is not None:
                    size, done, ev = der
                    w = cxx(et)
                    if not done:
                        ck.violation(e.where, 'mpitype', f'{e.name} uses a derived datatype which was not committed', f'mpitype|{f.q}|{e.name}|commit')
                    elif size is None or w is None:
                        ck.undecide(f'{e.where}: size of the derived datatype of {e.name} for {et}')
                    elif size != w[1]:
                        ck.violation(e.where, 'mpitype', f'{e.name} sends elements of {w[1]} bytes ({et}) as {size} bytes', f'mpitype|{f.q}|{e.name}|{et}|{ib}')
                    else:
                        ck.ok(f'{e.where}: {e.name} {et}: derived datatype of {size} bytes, committed')
                    continue
                w = cxx(et)
                if d is None or w is None:
                    ck.undecide(f'{e.where}: datatype of {e.name} for {et}')
                    continue
                got.append(d)
                if d == w or d[1] == w[1] and {d[0], w[0]} <= {'c', 'i', 'b', 'l', 'u'} and w[1] == 1:
                    ck.ok(f'{e.where}: {e.name} {et}')
                else:
                    ck.violation(e.where, 'mpitype', f'{e.name}: buffer {ib} holds {et}, the datatype describes {d[0]}{8 * d[1]}', f'mpitype|{f.q}|{e.name}|{et}|{ib}')
            if e.name in PAIR and len(got) == 2 and got[0] != got[1]:
                ck.violation(e.where, 'mpitype', f'{e.name}: send and receive datatypes differ', f'mpitype|{f.q}|{e.name}|pair')
        for k, (size, done, ev) in types.items():
            if id(ev.node) in own:
                tot += 1
                if done:
                    ck.ok(f'{ev.where}: derived datatype committed')
                else:
                    ck.violation(ev.where, 'mpitype', 'derived datatype is not committed before it is returned or used', f'mpitype|{f.q}|commit')
    ck.need(tot, 'no communication calls found')
    ck.count('communication calls', tot)
    ck.assumptions.append('LP64 sizes; predefined datatypes of the MPI library describe the types they are named after')


def key(a):
    return repr(getattr(a, 'base', None) or a)


def derived(a, types, ex):
    s = repr(getattr(a, 'base', None)) + repr(getattr(a, 'off', ''))
    if len(types) == 1 and ("'mk'" in s or 'MPI_Type_' in s or any(k in s for k in types)):
        return next(iter(types.values()))
    return None
