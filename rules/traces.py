"""Fully inlined effect traces, shared by the cross-cutting rules."""
import signal, sys
import prog, refcmp, sym

_T = {}


class Slow(Exception):
    pass


def _alarm(*a):
    raise Slow()


def trace(P, f, budget=25.0, noinline=()):
    """effects of f in program order with every callee of the repository followed; None if out of reach"""
    k = (id(P), id(f), bool(noinline))
    if k not in _T:
        ex = sym.Exec(P, noinline=noinline)
        ex.loopmeta = True
        ex.quiet = refcmp.QUIET
        old = signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, budget)
        try:
            ex.run(f)
            _T[k] = ex
        except (Slow, RecursionError):
            _T[k] = None
        except prog.AnalysisError:
            raise
        except Exception as x:
            print(f'note: {f.q}: {type(x).__name__} {x}', file=sys.stderr)
            _T[k] = None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, old)
    return _T[k]


def reaching(P, names):
    """functions of the repository that reach a call of one of the named external functions"""
    hit, edges = set(), {}
    for f in P.fns:
        if not f.body:
            continue
        for n in prog.nodes(f.d, 'call', 'ctor'):
            if n.get('fn') in names:
                hit.add(f)
            g = P.by_fk.get(n.get('fk')) if n.get('fk') else None
            if g is not None:
                edges.setdefault(g, set()).add(f)
    st = list(hit)
    while st:
        g = st.pop()
        for c in edges.get(g, ()):
            if c not in hit:
                hit.add(c)
                st.append(c)
    return hit
