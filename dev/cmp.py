"""all differences of a tree against the confirmed one (development aid): cmp.py [REPO]"""
import os; os.environ['VERIF_STRICT'] = '1'
import os, sys, collections, time
if len(sys.argv) > 1:
    os.environ['VERIF_REPO'] = sys.argv[1]
sys.path[:0] = ['/verif/lib', '/verif']
sys.setrecursionlimit(20000)
import prog, refcmp
P = prog.load()
S = refcmp.Session(P)
c = collections.Counter()
full = '-v' in sys.argv
for f in P.fns:
    if not f.body or S.counterpart(f) is None or not S.counterpart(f).body:
        continue
    for st, nm, w, m in S.verdict(f):
        c[st] += 1
        if st != 'ok':
            print(st.upper() if st == 'differ' else st, f.q, '|', w, '|', nm, '|', m if full else m[:260])
print(dict(c))
