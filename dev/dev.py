import sys; sys.path[:0]=['/verif/lib','/verif']
sys.setrecursionlimit(20000)
import prog, sym, poly
P=prog.load()
def show(q, n=1, noinline=(), pred=None, maxeff=200):
    fs=P.find(q, pred)
    print(q, len(fs))
    for f in fs[:n]:
        ex=sym.Exec(P, noinline=noinline)
        ex.run(f)
        print('==', f, f.loc)
        for e in ex.eff[:maxeff]:
            print('  ', e.kind if e.kind not in('st','acc') else '', e)
        print('  opaque:', ex.opaque[:12])
if __name__=='__main__':
    for a in sys.argv[1:]: show(a)
