"""Results depend on the arguments only: nothing is remembered between calls.

Over the resolved syntax tree of every function, class and namespace-scope variable, in every instantiation:
 * a static, thread-local or namespace-scope variable is never changed after its initialisation, and its initialiser does
   not use parameters, locals or the object (it would be frozen at the first call); loggers are left out;
 * no member is `mutable`, unless nothing ever changes it;
 * const is not cast away from what is then written;
 * no result comes from an unseeded random source, the clock, the environment, an address or a thread or process identifier
   (elapsed times for log messages do not count).
"""
import re
import prog
from rules.lifetime import name
from rules.uninit import strip
from rules.progress import key, writes

RULE = 'no mutable static, global or mutable-member state, no initialiser frozen at the first call, no unseeded source of randomness'
LOGT = re.compile(r'spdlog|logger')
SOURCE = re.compile(r'(?:^|::)(?:rand|srand|rand_r|drand48|lrand48|random_device|getenv|secure_getenv|getpid|gettimeofday|time_since_epoch|clock_gettime|gethostname|mkstemp|tmpnam)(?:<.*)?$'
                    r'|^(?:std::)?(?:time|clock)$')
ENGINE = re.compile(r'(?:linear_congruential_engine|mersenne_twister_engine|subtract_with_carry_engine|random_device|discard_block_engine)')


def mutated(P, ident, tu_of=None):
    """writes to a variable, by declaration id, in the functions of one unit"""
    out = []
    for f in P:
        for n in prog.nodes(f.d, 'asg', 'un', 'call', 'ctor'):
            for t, d in writes(f.tu, n):
                x = t
                while x and x[0] == 'f':
                    x = x[1]
                if x == ('v', ident):
                    out.append((f, n))
    return out


def run(P, ck):
    ck.rule(RULE)
    bytu = {}
    for f in P.fns:
        if f.body:
            bytu.setdefault(id(f.tu), []).append(f)
    # namespace-scope variables and static members
    for t in P.tus:
        for g in t.globals:
            ck.count('namespace-scope and static member variables')
            ty = t.types[g['t']]
            if g.get('const') or g.get('constexpr') or ty.startswith('const ') or LOGT.search(ty):
                ck.ok()
                continue
            w = mutated(bytu.get(id(t), []), g['id'])
            if w:
                f, n = w[0]
                ck.violation(f'{f.rel}:{n["l"]} ({f.q})', 'hidden', f'changes {g["q"]}, which lives as long as the program', key=f'{g["q"]}|{f.q}')
            else:
                ck.ok()
    seen = set()
    for t in P.tus:
        for r in t.recs:
            for fl in r['fields']:
                if not fl.get('mutable'):
                    continue
                k = (r['q'], fl['n'])
                if k in seen:
                    continue
                seen.add(k)
                w = [(f, n) for f in P.fns if f.body for n in prog.nodes(f.d, 'asg', 'un', 'call') for x, d in writes(f.tu, n) if x and x[0] == 'f' and x[2] == fl['n']]
                rel = [f for f, n in w]
                if w and not re.search(r'mutex|atomic|once_flag', t.types[fl['t']]):
                    ck.violation(f'{rel[0].rel}:{w[0][1]["l"]} ({rel[0].q})', 'hidden', f'changes the mutable member {fl["n"]} of {r["q"]}', key=f'mutable|{k}')
    for f in P.fns:
        if not f.body:
            continue
        ck.fn(f)
        bad = False
        for n in prog.nodes(f.d, 'decl', 'asg', 'call', 'ctor'):
            k = n['k']
            if k == 'decl':
                for v in n['vars']:
                    if not v.get('static'):
                        continue
                    ty = f.tu.types[v['t']]
                    ck.count('static locals')
                    if LOGT.search(ty):
                        continue
                    w = [] if v.get('const') and not ty.rstrip().endswith('*') else mutated([f], v['id'])
                    if w:
                        bad = True
                        ck.violation(f'{f.rel}:{w[0][1]["l"]} ({f.q})', 'hidden', f'changes the static variable {v["n"]}: the next call starts from it', key=f'{f.q}|static|{v["n"]}')
                        continue
                    if v.get('init'):
                        lams = {p['id'] for x in prog.nodes(v['init'], 'lambda') for s in x['spec'] for p in s['params']}
                        own = {w['id'] for x in prog.nodes(v['init'], 'decl') for w in x['vars']}
                        for x in prog.nodes(v['init'], 'ref', 'this'):
                            if x['k'] == 'this' or x.get('dk') in ('param', 'local', 'binding') and x.get('i') is None and x['id'] not in lams | own:
                                bad = True
                                ck.violation(f'{f.rel}:{v["l"]} ({f.q})', 'hidden', f'the static variable {v["n"]} keeps the value of {x.get("n", "the object")} from the first call', key=f'{f.q}|frozen|{v["n"]}')
                                break
            elif k == 'asg':
                b = n['a']
                while isinstance(b, dict) and b.get('k') in ('un', 'sub', 'mem', 'cast'):
                    if b['k'] == 'cast' and b.get('expl'):
                        x, y = f.tu.ty(b['e']), f.tu.ty(b)
                        if x.startswith('const ') and not y.startswith('const '):
                            bad = True
                            ck.violation(f'{f.rel}:{n["l"]} ({f.q})', 'hidden', 'writes through a cast that drops const', key=f'{f.q}|const')
                    b = b.get('e') if b['k'] in ('un', 'cast') else b.get('base')
            else:
                fn = (n.get('fn') or '') if k == 'call' else (n.get('cls') or '')
                if k == 'call' and SOURCE.search(fn):
                    bad = True
                    ck.violation(f'{f.rel}:{n["l"]} ({f.q})', 'hidden', f'uses {fn}: the result is not a function of the arguments', key=f'{f.q}|{fn}')
                elif k == 'ctor' and ENGINE.search(fn) and not n.get('cm') in ('copy', 'move'):
                    ck.count('random engines')
                    args = [a for a in n['args'] if not a.get('defarg')]
                    for x in prog.nodes(args, 'call', 'ctor', 'un', 'mem'):
                        if x['k'] in ('call', 'ctor') and re.search(r'random_device|now|time', (x.get('fn') or '') + (x.get('cls') or '')) or x['k'] == 'un' and x['op'] == '&':
                            bad = True
                            ck.violation(f'{f.rel}:{n["l"]} ({f.q})', 'hidden', 'a random engine is seeded from the clock, a device or an address', key=f'{f.q}|seed')
                            break
                    if 'random_device' in fn:
                        bad = True
                        ck.violation(f'{f.rel}:{n["l"]} ({f.q})', 'hidden', 'uses a random device', key=f'{f.q}|device')
        if not bad:
            ck.ok()
