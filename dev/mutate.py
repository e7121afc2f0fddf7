"""Kill-rate of the reference comparison on mutants of the syntax tree (development aid)."""
import os, sys, time, collections, copy, random
sys.path[:0] = ['/verif/lib', '/verif']
sys.setrecursionlimit(20000)
import prog, refcmp

SW = {'+': '-', '-': '+', '*': '+', '/': '*', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', '&&': '||', '||': '&&', '%': '/', '&': '|', '|': '&', '^': '|', '<<': '>>', '>>': '<<'}


def sites(f):
    out = []

    def go(n, parent, key, const):
        if isinstance(n, dict):
            k = n.get('k')
            c = const or ('i' in n and k not in ('int',))
            if k and not c:
                if k == 'bin' and n['op'] in SW:
                    out.append(('op', n))
                if k == 'asg' and n['op'] in ('+=', '-=', '*='):
                    out.append(('asgop', n))
                if k == 'int':
                    out.append(('int', n))
                if k == 'if' and not n.get('constexpr'):
                    out.append(('negif', n))
                if k == 'un' and n['op'] in ('++', '--'):
                    out.append(('inc', n))
                if k == 'un' and n['op'] == '-':
                    out.append(('neg', n))
                if k == 'block':
                    for i, s in enumerate(n['s']):
                        if isinstance(s, dict) and s.get('k') in ('asg', 'call', 'if', 'for', 'un', 'cont', 'brk', 'break', 'throw'):
                            out.append(('del', (n, i)))
                if k == 'call' and len(n.get('args', [])) >= 2:
                    pt = n.get('pt', [])
                    for i in range(min(len(n['args']), len(pt)) - 1):
                        if pt[i] == pt[i + 1] and pt[i] >= 0:
                            out.append(('swap', (n, i)))
                if k == 'call' and n.get('fn') in ('std::min', 'std::max'):
                    out.append(('minmax', n))
            for kk, v in n.items():
                if kk in ('spec',) or isinstance(v, (dict, list)):
                    go(v, n, kk, c)
        elif isinstance(n, list):
            for i, v in enumerate(n):
                go(v, n, i, const)
    go(f.d.get('inits', []), None, None, False)
    go(f.body, None, None, False)
    return out


def apply(site):
    kind, n = site
    if kind in ('op',):
        o = n['op']
        n['op'] = SW[o]
        return lambda: n.__setitem__('op', o)
    if kind == 'asgop':
        o = n['op']
        n['op'] = {'+=': '-=', '-=': '+=', '*=': '+='}[o]
        return lambda: n.__setitem__('op', o)
    if kind == 'int':
        o, oi = n.get('v'), n.get('i')
        try:
            n['v'] = type(o)(int(o) + 1) if not isinstance(o, str) else str(int(o) + 1)
        except Exception:
            pass
        if oi is not None:
            n['i'] = oi + 1 if isinstance(oi, int) else str(int(oi) + 1)
        def undo():
            n['v'] = o
            if oi is not None:
                n['i'] = oi
        return undo
    if kind == 'negif':
        o = n['c']
        n['c'] = {'k': 'un', 'op': '!', 'e': o, 'l': o.get('l', 0), 't': o.get('t', -1)}
        return lambda: n.__setitem__('c', o)
    if kind == 'inc':
        o = n['op']
        n['op'] = '--' if o == '++' else '++'
        return lambda: n.__setitem__('op', o)
    if kind == 'neg':
        o = n['op']
        n['op'] = '+'
        return lambda: n.__setitem__('op', o)
    if kind == 'del':
        b, i = n
        o = b['s'][i]
        b['s'][i] = {'k': 'block', 's': [], 'l': o.get('l', 0)}
        return lambda: b['s'].__setitem__(i, o)
    if kind == 'swap':
        c, i = n
        a = c['args']
        a[i], a[i + 1] = a[i + 1], a[i]
        def undo():
            a[i], a[i + 1] = a[i + 1], a[i]
        return undo
    if kind == 'minmax':
        o = n['fn']
        n['fn'] = 'std::min' if o == 'std::max' else 'std::max'
        return lambda: n.__setitem__('fn', o)


def line(site):
    n = site[1]
    if isinstance(n, tuple):
        n = n[0]['s'][n[1]] if site[0] == 'del' else n[0]
    return n.get('l', 0)


def one(args):
    fi, limit, verbose = args
    f = FS[fi]
    S = refcmp.Session(PP)
    out = []
    ss = sites(f)
    if len(ss) > limit:
        random.Random(1).shuffle(ss)
        ss = ss[:limit]
    c = collections.Counter()
    for s in ss:
        ln = line(s)
        u = apply(s)
        refcmp.astdiff._MEMO.clear()
        refcmp.astdiff._HL.clear()
        S.memo.clear()
        for k in [k for k in S.forms if k[0] == 'a']:
            del S.forms[k]
        t = time.time()
        S.spent = 0
        try:
            items = S.trusted(f, False)
            sts = [x[0] for x in items]
            st = 'differ' if 'differ' in sts else 'inexact' if 'inexact' in sts else 'undecided' if 'undecided' in sts else 'ok'
            why = ([x for x in items if x[0] == st] or [('', '', '', '')])[0]
        except Exception as e:
            st, why = 'EXC ' + type(e).__name__, ('', '', '', str(e)[:100])
            import traceback
            if verbose:
                traceback.print_exc(limit=-2)
        u()
        c[st] += 1
        if verbose and (st != 'differ' or time.time() - t > 15):
            out.append(f'   {st:10} {f.rel}:{ln} {s[0]} {(s[1].get("op") or s[1].get("i")) if isinstance(s[1], dict) else ""}  {why[1]}: {why[3][:200]} ({time.time()-t:.1f}s)')
    out.append(f'{f.loc} {f.q}: {dict(c)}')
    return out, c


def main(pats, limit=10**9, verbose=True):
    global PP, FS
    PP = prog.load()
    refcmp.reference()
    FS, seen = [], set()
    for f in PP.fns:
        if f.body and any(pat in f.q or pat in f.rel for pat in pats) and (f.rel, f.l) not in seen:
            seen.add((f.rel, f.l))
            FS.append(f)
    import multiprocessing as mp
    tot = collections.Counter()
    byfile = collections.defaultdict(collections.Counter)
    with mp.get_context('fork').Pool(int(os.environ.get("NP", "8"))) as pool:
        for (out, c), f in zip(pool.imap(one, [(i, limit, verbose) for i in range(len(FS))], chunksize=1), FS):
            print('\n'.join(out), flush=True)
            tot += c
            byfile[f.rel] += c
    for k in sorted(byfile):
        print('FILE', k, dict(byfile[k]))
    print('TOTAL', dict(tot))


if __name__ == '__main__':
    lim = [int(a) for a in sys.argv[1:] if a.isdigit()]
    main([a for a in sys.argv[1:] if not a.isdigit()], lim[0] if lim else 10**9)
