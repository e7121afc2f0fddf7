"""Bit strings: std::bitset<N> and unsigned words as integer terms.

A bit string is the non-negative integer it encodes.  `bits` marks an uninterpreted
leaf that holds a bit string of a given width; every operation is a term that the
identity test evaluates exactly."""
import re
from poly import P, ATOMS, REBUILD, show

_RX = re.compile(r'^std::bitset<(\d+)(UL|ul|u|U)?>$')


def width(t):
    """N for the type std::bitset<N>, else None"""
    t = t.strip()
    while True:
        o = t
        t = t.rstrip('&').strip()
        if t.startswith('const '):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        if o == t:
            break
    m = _RX.match(t)
    return int(m.group(1)) if m else None


WORD = {'unsigned int': 32, 'unsigned long': 64, 'unsigned long long': 64, 'unsigned __int128': 128, 'unsigned char': 8, 'unsigned short': 16, 'char': 8,
        'int': 32, 'long': 64, 'long long': 64, '__int128': 128, 'short': 16, 'signed char': 8}
UNSIGNED = {'unsigned int', 'unsigned long', 'unsigned long long', 'unsigned __int128', 'unsigned char', 'unsigned short'}
VALUE = {'bit&', 'bit|', 'bit^', 'shl', 'bmod', 'word', 'bits', 'bitrev'}


def K(p):
    c = p.const()
    return int(c) if c is not None and c.denominator == 1 else None


def leaf(n, p):
    """p, known to hold a bit string of n bits"""
    if p.const() is not None:
        return p
    a = p.single_atom()
    if a is None or a[0] in VALUE:
        return p
    if a[0] == 'ite':
        import sym
        return sym.mk_ite(a[1], leaf(n, a[2]), leaf(n, a[3]))
    return P.a(('bits', n, p))


def unleaf(p):
    a = p.single_atom()
    return a[2] if a and a[0] == 'bits' else p


def logic(op, x, y):
    a, b = K(x), K(y)
    if a is not None and b is not None and a >= 0 and b >= 0:
        return P.c(a & b if op == '&' else a | b if op == '|' else a ^ b)
    if x == y:
        return P.c(0) if op == '^' else x
    for u, v in ((a, y), (b, x)):
        if u == 0:
            return P.c(0) if op == '&' else v
    if op == '&':
        for u, v in ((x, y), (y, x)):
            b = lowbit_mask(u, v)
            if b is not None:
                return logic('^', v, b)
    x, y = sorted([x, y], key=show)
    return P.a(('bit' + op, x, y))


def lowbit_mask(u, v):
    """u = all ones except the lowest set bit of v: that bit"""
    one = [m for m in u.t if m]
    if len(one) != 1 or len(one[0]) != 1 or one[0][0][1] != 1 or u.t[one[0]] != -1:
        return None
    s = ATOMS[one[0][0][0]]
    if s[0] != 'shl' or K(s[2]) != 1:
        return None
    n = s[1]
    if u.t.get(()) != 2 ** n - 1 and u.t.get(()) != -1:
        return None
    k = s[3] + P.c(1)
    f = k.single_atom()
    return P.a(s) if f and f[0] == 'ffs' and f[1] == v else None


def shl(n, x, k):
    a, b = K(x), K(k)
    if b == 0 or a == 0:
        return x
    if b is not None and b >= n:
        return P.c(0)
    if a is not None and b is not None and b >= 0:
        return P.c((a << b) & (2 ** n - 1))
    return P.a(('shl', n, x, k))


def shr(x, k):
    a, b = K(x), K(k)
    if b == 0 or a == 0:
        return x
    if a is not None and b is not None and b >= 0 and a >= 0:
        return P.c(a >> b)
    return P.a(('shift>>', x, k))


def inv(n, x):
    return P.c(2 ** n - 1) - x


def mod(n, x):
    a = K(x)
    if a is not None:
        return P.c(a % 2 ** n)
    s = x.single_atom()
    if s and (s[0] in ('bits', 'shl') and s[1] <= n or s[0] == 'word' and s[1] <= n or s[0] == 'bmod' and s[1] <= n):
        return x
    return P.a(('bmod', n, x))


def word(w, n, x, k):
    """k-th w-bit word of an n-bit string"""
    a = K(x)
    if a is not None:
        return P.c((a >> (w * k)) % 2 ** w)
    if k == 0 and w >= n:
        return x
    return P.a(('word', w, x, P.c(k)))


def test(x, i):
    a, b = K(x), K(i)
    if a is not None and b is not None and b >= 0:
        return P.c((a >> b) & 1)
    if a == 0:
        return P.c(0)
    return P.a(('btest', x, i))


def fn1(tag, x, f, *pre):
    a = K(x)
    if a is not None:
        return P.c(f(*pre, a))
    return P.a((tag,) + pre + (x,))


def popc(x):
    return fn1('popc', x, lambda v: bin(v).count('1') if v >= 0 else 0)


def ffs(x):
    return fn1('ffs', x, lambda v: (v & -v).bit_length())


def clz(w, x):
    return fn1('clz', x, lambda w, v: w - v.bit_length(), w)


def ctz(x):
    return fn1('ffs', x, lambda v: (v & -v).bit_length()) - P.c(1)


def put(n, x, i, v):
    """x with bit i set to v (0/1)"""
    one = shl(n, P.c(1), i)
    k = K(v)
    if k == 1:
        return logic('|', x, one)
    clear = logic('&', x, inv(n, one))
    if k == 0:
        return clear
    return logic('|', clear, shl(n, v, i))


REBUILD['bits'] = lambda a: leaf(a[1], a[2])
for _o in '&|^':
    REBUILD['bit' + _o] = lambda a, _o=_o: logic(_o, a[1], a[2])
REBUILD['shl'] = lambda a: shl(a[1], a[2], a[3])
REBUILD['shift>>'] = lambda a: shr(a[1], a[2])
REBUILD['bmod'] = lambda a: mod(a[1], a[2])
REBUILD['btest'] = lambda a: test(a[1], a[2])
REBUILD['popc'] = lambda a: popc(a[1])
REBUILD['ffs'] = lambda a: ffs(a[1])
REBUILD['clz'] = lambda a: clz(a[1], a[2])

TAGS = ('bits', 'bit&', 'bit|', 'bit^', 'shl', 'shift>>', 'shift<<', 'bmod', 'word', 'btest', 'popc', 'ffs', 'clz', 'bnot')


# ---------------------------------------------------------------- evaluation
def value(w, a):
    """value of the term a in the world w"""
    t = a[0]
    if t == 'bits':
        s = a[2].single_atom()
        if s is None or s[0] in ('rec', 'recn', 'ite', 'sum', 'min', 'max', 'mod', 'idiv', 'abs', 'red') or s[0] in VALUE or s[0] in ('loop', 'phi') and any(i in w.env for i in a[2].atoms()):
            return int(w.p(a[2])) % 2 ** a[1]
        return w.bitleaf(a[1], s, a[2])
    if t in ('bit&', 'bit|', 'bit^'):
        x, y = int(w.p(a[1])), int(w.p(a[2]))
        return x & y if t == 'bit&' else x | y if t == 'bit|' else x ^ y
    if t == 'shl':
        x, k = int(w.p(a[2])), int(w.p(a[3]))
        return (x << k) % 2 ** a[1] if 0 <= k < a[1] else 0
    if t == 'shift>>':
        x, k = int(w.p(a[1])), int(w.p(a[2]))
        return x >> k if 0 <= k < 4096 else 0
    if t == 'shift<<':
        x, k = int(w.p(a[1])), int(w.p(a[2]))
        return x << k if 0 <= k < 512 else 0
    if t == 'bmod':
        return int(w.p(a[2])) % 2 ** a[1]
    if t == 'word':
        return (int(w.p(a[2])) >> (a[1] * int(w.p(a[3])))) % 2 ** a[1]
    if t == 'btest':
        i = int(w.p(a[2]))
        return (int(w.p(a[1])) >> i) & 1 if 0 <= i < 4096 else 0
    if t == 'popc':
        v = int(w.p(a[1]))
        return bin(v).count('1') if v >= 0 else -1
    if t == 'ffs':
        v = int(w.p(a[1]))
        return (v & -v).bit_length()
    if t == 'clz':
        v = int(w.p(a[2]))
        return a[1] - v.bit_length()
    if t == 'bnot':
        return -1 - int(w.p(a[1]))
    raise KeyError(t)


def pattern(w, n, key):
    """a bit string for the leaf `key`: determinants of one world are few excitations apart"""
    r = w.rnd
    m = r(('bitmode',)) % 8
    if m == 7:
        k = r(('bw', key)) % 4
        if k == 0:
            return 0
        if k == 1:
            return 2 ** n - 1
        v = 0
        for j in range(0, n, 32):
            v |= r(('bb', key, j)) << j
        if k == 2:
            v &= v >> 1
        return v % 2 ** n
    h = n // 2
    win = min(5, h)
    lo = (0, 0, 0, 0, 0, h - win, max(0, min(h, 33) - 3))[m]
    if lo + win > h:
        lo = h - win
    one = r(('onespin',)) % 3 == 0
    d = 0
    for s in ((0,) if one else (0, 1)):
        occ = [((r(('occ', s, j))) >> 3) & 1 for j in range(win)]
        if not any(occ):
            occ[r(('o1', s)) % win] = 1
        if all(occ):
            occ[r(('o0', s)) % win] = 0
        for q in range((0, 0, 1, 1, 1, 2)[r(('nx', s, key)) % 6]):
            o = [j for j in range(win) if occ[j]]
            v = [j for j in range(win) if not occ[j]]
            if o and v:
                occ[o[r(('xo', s, q, key)) % len(o)]] = 0
                occ[v[r(('xv', s, q, key)) % len(v)]] = 1
        for j in range(win):
            if occ[j]:
                d |= 1 << (lo + j + s * h)
    return d
