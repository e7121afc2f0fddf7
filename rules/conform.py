"""Conformity with the confirmed behaviour, function by function.

ROOTS gives, per property, the functions the property is about: (file pattern, name
pattern).  The analysed set is the closure of the roots over resolved calls inside
the repository, because a property of a function is broken by whatever it calls.
"""
import re
import prog, refcmp
from rules.table import ROOTS

RULE = ('conformity: the abstract summary of every function in the call closure of the anchors '
        '(what it stores to which element under which guard and over which index range, which calls with '
        'side effects it makes with which arguments in which order, what it throws, what it returns) is, as an '
        'algebraic object, identical to the confirmed summary; decided by normal form and polynomial identity test')
_S = {}


def session(P):
    if id(P) not in _S:
        _S[id(P)] = refcmp.Session(P)
    return _S[id(P)]


def roots(P, pid):
    pats = [(re.compile(a), re.compile(b)) for a, b in ROOTS[pid][1]]
    out = []
    for f in P.fns:
        if f.body and any(a.search(f.rel) and b.search(f.q) for a, b in pats):
            out.append(f)
    return out


def closure(P, rs):
    why, st = {}, []
    for f in rs:
        why[f] = None
        st.append(f)
    while st:
        f = st.pop(0)
        for n in prog.nodes(f.d, 'call', 'ctor'):
            fk = n.get('fk')
            g = P.by_fk.get(fk) if fk else None
            if g is not None and g.body and g not in why:
                why[g] = f
                st.append(g)
    return why


def path(why, f):
    p = [f.q]
    while why[f] is not None:
        f = why[f]
        p.append(f.q)
    return ' <- '.join(p)


def run(P, ck, minimum=None):
    S = session(P)
    ck.rule(RULE)
    rs = roots(P, ck.pid)
    ref = roots(S.R, ck.pid)
    # internal helpers may come and go; the public anchors must be there
    have = {f.q for f in rs}
    lost = {f.q for f in ref if not refcmp.internal(f)} - have
    ck.need(len(lost) <= len({f.q for f in ref}) // 2 and rs, f'{ck.pid}: anchors not found: {sorted(lost)[:5]}')
    for q in sorted(lost):
        ck.undecide(f'{q}: no longer defined')
    why = closure(P, rs)
    for f in why:
        r = S.counterpart(f)
        ck.fn(f)
        if r is None or not r.body:
            ck.count('functions without confirmed counterpart (followed from their callers)')
            continue
        ck.count('functions compared')
        for st, nm, w, m in S.verdict(f):
            ck.count('summary components compared')
            if st == 'ok':
                ck.ok(f'{f.q}: {nm}')
            elif st == 'differ':
                ck.violation(w, 'conformity', f'{m} [reached: {path(why, f)}]', f'conformity|{f.q}|{nm}')
            else:
                ck.undecide(f'{f.q}: {nm} [{st}] {m[:200]}')
    ck.assumptions += [
        'the summaries in /verif/reference (a copy of the sources at the commit that was reviewed) are the confirmed behaviour',
        'identity test: two summaries that agree in 24 pseudo-random interpretations of their symbols are taken as equal; '
        'only two or more disagreeing interpretations of fully understood summaries are reported',
        'external libraries (BLAS/LAPACK wrappers, MPI, the C++ library) behave as documented']
