"""What the interpreter leaves unresolved in the confirmed tree, per function."""
import sys, os, collections
sys.path[:0] = [os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib')]
sys.setrecursionlimit(20000)
import refcmp, prog
R = refcmp.reference()
bnd = {f.fk or f.q for f in R.fns if f.body and not refcmp.small(f)}
tot = collections.Counter()
seen = set()
n = w = 0
for f in R.fns:
    if not f.body or (f.q, f.l) in seen or len(sys.argv) > 1 and not any(a in f.rel or a in f.q for a in sys.argv[1:]):
        continue
    seen.add((f.q, f.l))
    try:
        F = refcmp.Form(R, f, noinline=bnd - {f.fk or f.q})
    except Exception as x:
        print(f.loc, f.q, 'FAIL', x)
        continue
    n += 1
    es = [e for _, e in F.entries]
    k = refcmp.weak_entries(es)
    for _, v in F.ret:
        refcmp.weak(v, k)
    ops = sorted({y for _, y in F.ex.opaque})
    if k or ops:
        w += 1
        tot.update(k)
        tot.update('op ' + o for o in ops)
        print(f'{f.loc} {f.q}: {sorted(k)} {ops}'[:260])
print(n, w)
for k, v in tot.most_common(60):
    print(v, k)
