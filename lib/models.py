"""Summaries of the library functions the repository calls (abstract semantics)."""
import bits
from poly import P, ATOMS, atom_id
from sym import (Vec, Ptr, Tup, Obj, Lam, Alias, Str, Opq, C, Span, ZERO, ONE, to_p, to_c, is_int, strip_t,
                 elem_type, mk_lti, mk_eq, mk_sum, argkey, ite, c_and, c_or, c_not, mk_lt, addr_key, mk_ite)
import sym
import functools


@functools.lru_cache(None)
def split_fn(fn):
    """'std::vector<a::b>::size' -> ('std::vector', 'size')"""
    d = 0
    last = -1
    i = 0
    base = []
    n = len(fn)
    while i < n:
        c = fn[i]
        if c == '<' and not fn[:i].endswith('operator') and not fn[:i].endswith('operator<'):
            d += 1
        elif c == '>' and d > 0:
            d -= 1
        elif d == 0:
            if fn.startswith('::', i):
                last = len(base)
                base.append('::')
                i += 2
                continue
            base.append(c)
        i += 1
    if last < 0:
        return '', ''.join(base)
    return ''.join(base[:last]), ''.join(base[last + 1:])


def lvof(ex, e):
    return ex.lv(e['obj'])


def setq(ex, lv, v):
    """silent write of container state"""
    if lv[0] == 'var':
        cur = ex.env.get(lv[1])
        if isinstance(cur, Alias):
            return setq(ex, cur.lv, v)
        ex.env[lv[1]] = v
    elif lv[0] == 'fld':
        cur = lv[1].fields.get(lv[2])
        if isinstance(cur, Alias):
            return setq(ex, cur.lv, v)
        lv[1].fields[lv[2]] = v
    elif lv[0] == 'tup':
        cur = lv[1].v[lv[2]]
        if isinstance(cur, Alias):
            return setq(ex, cur.lv, v)
        lv[1].v[lv[2]] = v
    elif lv[0] == 'elem':
        ex.env[('vecsz', lv[1], lv[2])] = v


def vec_of(ex, e):
    """(lvalue, Vec) of the object of a member call"""
    lv = lvof(ex, e)
    v = ex.get(lv)
    if isinstance(v, Ptr):
        v2 = ex.deref_obj(v, e['obj'])
        v = v2
    if isinstance(v, Vec) and lv[0] == 'elem':
        s = ex.env.get(('vecsz', lv[1], lv[2]))
        if s is not None:
            v = s
    return lv, v


def A(ex, e, i):
    return ex.ev(e['args'][i])


def model(ex, e, fn, want_lv=False):
    cls, nm = split_fn(fn)
    op = e.get('op')
    if cls in ('std::vector', 'std::array', 'std::basic_string') and 'obj' in e:
        return m_vec(ex, e, nm, op, fn)
    if cls.startswith('std::') and nm in ('operator*', 'operator->', 'get', 'operator bool', 'operator=', 'reset', 'release', 'use_count') and \
            cls in ('std::shared_ptr', 'std::unique_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::__uniq_ptr_impl'):
        return m_smart(ex, e, nm)
    if cls == '__gnu_cxx::__normal_iterator' or (cls == '__gnu_cxx' and nm.startswith('operator')):
        return m_iter(ex, e, nm, op)
    if cls == 'Kokkos::mdspan':
        return m_span(ex, e, nm)
    if cls in ('std::pair', 'std::tuple') and nm == 'operator=':
        lv = lvof(ex, e)
        v = ex.ev(e['args'][0])
        cur = ex.get(lv)
        if isinstance(cur, Tup) and isinstance(v, Tup) and len(cur.v) == len(v.v):
            for i, x in enumerate(v.v):
                x = ex.val(x)
                ex.put(('tup', cur, i), x, e)
        elif isinstance(v, Tup):
            ex.put(lv, Tup([ex.val(x) for x in v.v]), e)
        else:
            ex.put(lv, v, e)
        return Alias(lv)
    if cls == 'std::optional':
        v = ex.ev(e['obj'])
        if nm == 'operator=':
            ex.put(lvof(ex, e), ex.ev(e['args'][0]), e)
            return Alias(lvof(ex, e))
        if isinstance(v, Obj) and nm in ('value', 'operator*', 'value_or') and strip_t(v.cls) in ('std::optional<double>', 'std::optional<int>', 'std::optional<unsigned long>', 'std::optional<long>'):
            p = P.a(('val', ('opt', v.key)))
            return p if nm != 'value_or' else ite(('has', argkey(v)), p, A(ex, e, 0))
        if nm in ('value', 'operator*'):
            return v
        if nm in ('has_value', 'operator bool'):
            return C(('has', argkey(v)))
        if nm == 'value_or':
            return ite(('has', argkey(v)), v, A(ex, e, 0))
        return NotImplemented
    if cls == 'std::bitset':
        return m_bitset(ex, e, nm, fn)
    if cls in ('std::bitset::reference', 'std::_Bit_reference'):
        return m_bitref(ex, e, nm)
    if fn in BITFN:
        p = to_p(A(ex, e, 0)) if e['args'] else None
        return BITFN[fn](p) if p is not None else NotImplemented
    if cls == 'std':
        f = STD.get(nm)
        if f:
            return f(ex, e, nm)
        if nm in ('operator&', 'operator|', 'operator^') and len(e['args']) == 2 and strip_t(ex.ty(e['args'][0])).startswith('std::bitset<'):
            u, v = to_p(A(ex, e, 0)), to_p(A(ex, e, 1))
            if u is not None and v is not None:
                return bits.logic(nm[8:], u, v)
        if nm.startswith('operator') and nm[8:] in ('==', '!=', '<', '>', '<=', '>=', '-', '+'):
            args = ([e['obj']] if 'obj' in e else []) + e['args']
            if len(args) == 2:
                ta = strip_t(ex.ty(args[0]))
                if ta.startswith('std::bitset<') and nm[8:] in ('==', '!='):
                    u, v = to_p(ex.ev(args[0])), to_p(ex.ev(args[1]))
                    if u is not None and v is not None:
                        c = mk_eq(u - v)
                        return C(c if nm[8:] == '==' else c_not(c))
                if ta.startswith('std::vector<') and nm[8:] in ('==', '!='):
                    u, v = ex.ev(args[0]), ex.ev(args[1])
                    if isinstance(u, Vec) and isinstance(v, Vec):
                        et = elem_type(ta)
                        if is_int(et) or et in ('double', 'float'):
                            c = vec_eq(ex, e, u, v)
                            if c is not None:
                                return C(c if nm[8:] == '==' else c_not(c))
                    return NotImplemented
                if 'iterator' in ta:
                    return ex.binop(nm[8:], ex.ev(args[0]), ex.ev(args[1]), e, ta)
                if ta.startswith(('std::tuple<', 'std::pair<')) and nm[8:] not in ('-', '+'):
                    c = tuple_cmp(ex, nm[8:], ex.ev(args[0]), ex.ev(args[1]), ta)
                    if c is not None:
                        return C(c)
        return NotImplemented
    if cls == 'blas':
        f = BLAS.get(nm)
        if f:
            return f(ex, e)
        return NotImplemented
    if cls == 'lapack':
        f = LAPACK.get(nm)
        if f:
            return f(ex, e)
        return NotImplemented
    if fn in ('sqrt', 'fabs', 'exp', 'log', 'pow', 'ceil', 'floor'):
        return NotImplemented
    if cls == 'macis::NamedType' and nm == 'get':
        o = ex.ev(e['obj'])
        if isinstance(o, Obj) and '__named__' in o.fields:
            return o.fields['__named__']
        if isinstance(o, P):
            return o
    return NotImplemented


# --------------------------------------------------------------- bit strings
BITFN = {'ffs': bits.ffs, 'ffsl': bits.ffs, 'ffsll': bits.ffs, '__builtin_ffs': bits.ffs, '__builtin_ffsl': bits.ffs, '__builtin_ffsll': bits.ffs,
         '__builtin_clz': lambda p: bits.clz(32, p), '__builtin_clzl': lambda p: bits.clz(64, p), '__builtin_clzll': lambda p: bits.clz(64, p),
         '__builtin_ctz': bits.ctz, '__builtin_ctzl': bits.ctz, '__builtin_ctzll': bits.ctz,
         '__builtin_popcount': bits.popc, '__builtin_popcountl': bits.popc, '__builtin_popcountll': bits.popc}


def m_bitset(ex, e, nm, fn):
    ob = e.get('obj')
    if ob is None:
        return NotImplemented
    t = ex.ty(ob).strip().rstrip('*').strip()
    n = bits.width(t)
    if n is None:
        return NotImplemented
    args = [a for a in e['args'] if not (a.get('defarg') and nm != 'set')]
    full = P.c(2 ** n - 1)
    if nm == 'size':
        return P.c(n)
    if nm in ('operator[]', 'operator=', 'operator&=', 'operator|=', 'operator^=', 'operator<<=', 'operator>>=', 'flip', 'set', 'reset'):
        vs = [ex.ev(a) for a in args]
        lv = lvof(ex, e)
        cur = ex.get(lv)
        if isinstance(cur, Ptr):
            lv = ex.deref(cur, ob)
            cur = ex.get(lv)
        x = to_p(cur)
        ps = [to_p(v) for v in vs]
        if x is None or any(p is None for p in ps):
            if nm == 'operator[]':
                return ex.opq(e, 'bit')
            ex.put(lv, ex.opq_p(e, 'bitset'), e)
            return Alias(lv)
        if nm == 'operator[]':
            if lv[0] == 'val':
                return C(c_not(mk_eq(bits.test(x, ps[0]))))
            return Alias(('bit', lv, ps[0], n))
        if nm == 'operator=':
            r = ps[0]
        elif nm[8:9] in '&|^' and nm.endswith('='):
            r = bits.logic(nm[8], x, ps[0])
        elif nm == 'operator<<=':
            r = bits.shl(n, x, ps[0])
        elif nm == 'operator>>=':
            r = bits.shr(x, ps[0])
        elif nm == 'flip':
            r = bits.logic('^', x, bits.shl(n, ONE, ps[0])) if ps else bits.inv(n, x)
        elif nm == 'set':
            r = full if not ps else bits.put(n, x, ps[0], ps[1] if len(ps) > 1 else ONE)
        else:
            r = ZERO if not ps else bits.put(n, x, ps[0], ZERO)
        if lv[0] == 'val':
            return r
        ex.put(lv, r, e)
        return Alias(lv)
    v = ex.ev(ob)
    if isinstance(v, Ptr):
        v = ex.get(ex.deref(v, ob))
    x = to_p(v)
    ps = [to_p(ex.ev(a)) for a in args]
    if x is None or any(p is None for p in ps):
        return NotImplemented
    if nm == 'operator~':
        return bits.inv(n, x)
    if nm == 'operator<<':
        return bits.shl(n, x, ps[0])
    if nm == 'operator>>':
        return bits.shr(x, ps[0])
    if nm in ('operator==', 'operator!='):
        c = mk_eq(x - ps[0])
        return C(c if nm == 'operator==' else c_not(c))
    if nm == 'test':
        return C(c_not(mk_eq(bits.test(x, ps[0]))))
    if nm == 'count':
        return bits.popc(x)
    if nm == 'any':
        return C(c_not(mk_eq(x)))
    if nm == 'none':
        return C(mk_eq(x))
    if nm == 'all':
        return C(mk_eq(x - full))
    if nm in ('to_ulong', 'to_ullong'):
        return x
    return NotImplemented


def m_bitref(ex, e, nm):
    if nm == 'operator bool':
        c = to_c(ex.ev(e['obj']))
        return C(c) if c is not None else NotImplemented
    if nm == 'operator~':
        c = to_c(ex.ev(e['obj']))
        return C(c_not(c)) if c is not None else NotImplemented
    lv = ex.lv(e['obj'])
    if lv[0] not in ('bit', 'elem'):
        return NotImplemented
    if nm == 'operator=':
        ex.put(lv, ex.ev(e['args'][0]), e)
        return Alias(lv)
    if nm == 'flip':
        c = to_c(ex.get(lv))
        if c is not None:
            ex.put(lv, C(c_not(c)), e)
            return Alias(lv)
    return NotImplemented


# ------------------------------------------------------------------ vector
def m_vec(ex, e, nm, op, fn):
    lv, v = vec_of(ex, e)
    if isinstance(v, Tup):
        if nm in ('operator[]', 'at'):
            i = to_p(A(ex, e, 0))
            k = i.const() if i is not None else None
            if k is not None and 0 <= k < len(v.v):
                return Alias(('tup', v, int(k)))
            if i is not None:
                vs = [to_p(x) for x in v.v]
                if all(x is not None for x in vs) and vs:
                    return P.a(('sel', i) + tuple(vs))
            return ex.opq(e, 'array subscript')
        if nm == 'size':
            return P.c(len(v.v))
        if nm in ('back', 'front'):
            return Alias(('tup', v, len(v.v) - 1 if nm == 'back' else 0))
    if isinstance(v, Str):
        if nm in ('size', 'length'):
            return P.c(len(v.s))
        return NotImplemented
    if not isinstance(v, Vec):
        if isinstance(v, (Obj,)):
            v = Vec(v.key, None, '')
        else:
            return NotImplemented
    if fn.startswith('std::basic_string') and nm not in ('size', 'length', 'begin', 'end', 'data', 'empty', 'operator[]', 'at', 'back', 'front'):
        return NotImplemented
    et = v.et or elem_type(strip_t(ex.ty(e['obj'])))
    if nm in ('operator[]', 'at'):
        i = to_p(A(ex, e, 0))
        if i is None:
            return ex.opq(e, 'subscript')
        return Alias(('elem', v.base, i, et))
    if nm in ('size', 'length'):
        return ex.size_of(v)
    if nm in ('data', 'begin', 'cbegin'):
        return Ptr(v.base, ZERO)
    if nm in ('end', 'cend'):
        return Ptr(v.base, ex.size_of(v))
    if nm == 'empty':
        from sym import mk_eq
        return C(mk_eq(ex.size_of(v)))
    if nm == 'front':
        return Alias(('elem', v.base, ZERO, et))
    if nm == 'back':
        return Alias(('elem', v.base, ex.size_of(v) - ONE, et))
    if nm in ('push_back', 'emplace_back'):
        sz = ex.size_of(v)
        args = [ex.ev(a) for a in e['args']]
        if len(args) == 1:
            x = args[0]
            p = to_p(x)
            if nm == 'emplace_back' and isinstance(x, P) and et.startswith('std::vector'):
                x = Vec(('el', v.base, sz), x, elem_type(et))
                p = None
            if p is not None or not ex.scatter(e, v.base, sz, x, et):
                ex.emit('st', e, base=v.base, off=sz, val=p if p is not None else x, name='push')
        elif not (et.startswith('std::pair<') and ex.scatter(e, v.base, sz, Tup(args), et)):
            ex.emit('st', e, base=v.base, off=sz, val=Tup(args), name='push')
        setq(ex, lv, Vec(v.base, sz + ONE, et))
        return Alias(('elem', v.base, sz, et))
    if nm == 'pop_back':
        setq(ex, lv, Vec(v.base, ex.size_of(v) - ONE, et))
        return Opq('void')
    if nm == 'resize':
        n = to_p(A(ex, e, 0))
        val = ZERO
        if len(e['args']) > 1 and not e['args'][1].get('defarg'):
            x = A(ex, e, 1)
            val = to_p(x) if to_p(x) is not None else x
        if n is None:
            n = ex.opq_p(e, 'resize')
        ex.emit('vnew', e, base=v.base, off=n, val=val, name='resize', args=[ex.size_of(v)])
        setq(ex, lv, Vec(v.base, n, et))
        return Opq('void')
    if nm == 'assign':
        a0 = A(ex, e, 0)
        if isinstance(a0, P):
            x = A(ex, e, 1)
            ex.emit('vnew', e, base=v.base, off=a0, val=to_p(x) if to_p(x) is not None else x, name='assign', args=[ZERO])
            setq(ex, lv, Vec(v.base, a0, et))
            return Opq('void')
        if isinstance(a0, Ptr):
            b = A(ex, e, 1)
            n = ex.distance(a0, b, e)
            if n is not None:
                ex.copy_loop(e, a0, n, Ptr(v.base, ZERO))
                setq(ex, lv, Vec(v.base, n, et))
                return Opq('void')
    if nm == 'clear':
        setq(ex, lv, Vec(v.base, ZERO, et))
        return Opq('void')
    if nm in ('reserve', 'shrink_to_fit'):
        for a in e['args']:
            ex.ev(a)
        return Opq('void')
    if nm == 'capacity':
        return P.a(('capacity', v.base))
    if nm == 'swap':
        l2 = ex.lv(e['args'][0])
        w = ex.get(l2)
        exchange(ex, e, lv, v, l2, w)
        return Opq('void')
    if nm == 'insert':
        args = [ex.ev(a) for a in e['args']]
        if len(args) == 3 and isinstance(args[0], Ptr) and isinstance(args[1], Ptr) and isinstance(args[2], Ptr) \
                and args[0].base == v.base and args[0].off == ex.size_of(v):
            n = ex.distance(args[1], args[2], e)
            if n is not None:
                sz = ex.size_of(v)
                ex.copy_loop(e, args[1], n, Ptr(v.base, sz))
                setq(ex, lv, Vec(v.base, sz + n, et))
                return Opq('void')
        ex.emit('call', e, name='vector::insert', args=[v] + args)
        setq(ex, lv, Vec(v.base, P.a(('size', ('ins', v.base, ex.fresh('i')[1]))), et))
        return ex.opq(e, 'insert')
    if nm == 'erase':
        args = [ex.ev(a) for a in e['args']]
        ex.emit('call', e, name='vector::erase', args=[v] + args)
        if len(args) == 2 and all(isinstance(a, Ptr) and isinstance(a.off, P) and a.base == v.base for a in args):
            setq(ex, lv, Vec(v.base, ex.size_of(v) - (args[1].off - args[0].off), et))
        else:
            setq(ex, lv, Vec(v.base, P.a(('size', ('ers', v.base, ex.fresh('i')[1]))), et))
        return Ptr(v.base, P.a(('erased', ex.fresh('i')[1])))
    if nm == 'operator=':
        w = A(ex, e, 0)
        if isinstance(w, Tup):
            for i, x in enumerate(w.v):
                ex.emit('st', e, base=v.base, off=P.c(i), val=to_p(x) if to_p(x) is not None else x)
            setq(ex, lv, Vec(v.base, P.c(len(w.v)), et))
            return Alias(lv)
        if isinstance(w, Vec):
            if w.base[0] == 'loc' and str(w.base[2]).startswith('tmp@'):
                # freshly built temporary moved in: its stores are stores to the target
                ex.rename_base(w.base, v.base)
                ex.emit('vmove', e, base=v.base, val=v.base)
                setq(ex, lv, Vec(v.base, w.size, et))
            else:
                ex.emit('vcopy', e, base=v.base, off=ex.size_of(w), val=w.base)
                setq(ex, lv, Vec(v.base, ex.size_of(w), et))
            return Alias(lv)
        ex.log(e, 'vector assign')
        setq(ex, lv, Vec(v.base, None, et))
        return Alias(lv)
    return NotImplemented


def m_smart(ex, e, nm):
    if nm == 'operator=':
        lv = lvof(ex, e)
        ex.put(lv, ex.ev(e['args'][0]), e)
        return Alias(lv)
    v = ex.ev(e['obj'])
    if nm in ('operator->', 'get', 'release'):
        return v
    if nm == 'operator*':
        if isinstance(v, Ptr):
            return ex.deref_obj(v, e) if v.base[0] != 'new' else Alias(('elem', v.base, v.off, ex.ty(e)))
        return v
    if nm == 'operator bool':
        c = to_c(v)
        return C(c) if c is not None else C(('has', argkey(v)))
    return NotImplemented


def m_iter(ex, e, nm, op):
    args = ([e['obj']] if 'obj' in e else []) + e['args']
    o = nm[8:]
    if o in ('=',):
        lv = ex.lv(args[0])
        v = ex.ev(args[1])
        ex.put(lv, v, e)
        return Alias(lv)
    if o in ('++', '--'):
        lv = ex.lv(args[0])
        old = ex.get(lv)
        d = ONE if o == '++' else P.c(-1)
        if isinstance(old, Ptr) and isinstance(old.off, P):
            new = Ptr(old.base, old.off + d)
        else:
            new = ex.opq(e, 'iterator')
        ex.put(lv, new, e)
        return old if len(args) > 1 else Alias(lv)
    if o in ('+=', '-='):
        lv = ex.lv(args[0])
        old = ex.get(lv)
        d = to_p(ex.ev(args[1]))
        if isinstance(old, Ptr) and isinstance(old.off, P) and d is not None:
            new = Ptr(old.base, old.off + d if o == '+=' else old.off - d)
        else:
            new = ex.opq(e, 'iterator')
        ex.put(lv, new, e)
        return Alias(lv)
    if o == '*' and len(args) == 1:
        v = ex.ev(args[0])
        if isinstance(v, Ptr):
            return Alias(ex.deref(v, e))
        return ex.opq(e, 'iterator deref')
    if o == '->':
        return ex.ev(args[0])
    if o == '[]':
        v = ex.ev(args[0])
        i = to_p(ex.ev(args[1]))
        if isinstance(v, Ptr) and i is not None and isinstance(v.off, P):
            return Alias(('elem', v.base, v.off + i, ex.ty(e)))
        return ex.opq(e, 'iterator[]')
    if nm == 'base':
        return ex.ev(args[0])
    if o in ('+', '-', '==', '!=', '<', '>', '<=', '>='):
        return ex.binop(o, ex.ev(args[0]), ex.ev(args[1]), e, 'long')
    return NotImplemented


def m_span(ex, e, nm):
    v = ex.ev(e['obj'])
    if nm == 'operator=':
        lv = lvof(ex, e)
        ex.put(lv, A(ex, e, 0), e)
        return Alias(lv)
    if not isinstance(v, Span):
        return NotImplemented
    if nm == 'data_handle':
        return v.ptr
    if nm == 'extent':
        k = to_p(A(ex, e, 0)).const()
        if v.ext is not None and k is not None:
            return v.ext[int(k)]
        return P.a(('extent', v.ptr.base, int(k) if k is not None else to_p(A(ex, e, 0))))
    if nm == 'rank':
        return NotImplemented
    if nm == 'size':
        if v.ext is not None:
            r = ONE
            for x in v.ext:
                r = r * x
            return r
        if v.rank:
            r = ONE
            for k in range(int(v.rank)):
                r = r * P.a(('extent', v.ptr.base, k))
            return r
        return P.a(('size', v.ptr.base))
    if nm == 'operator()':
        ix = [to_p(A(ex, e, i)) for i in range(len(e['args']))]
        if any(i is None for i in ix):
            return ex.opq(e, 'mdspan index')
        t = ex.ty(e)
        if v.ext is not None and isinstance(v.ptr.off, P):
            off = v.ptr.off
            s = ONE
            for i, n in zip(ix, v.ext):
                off = off + i * s
                s = s * n
            return Alias(('elem', v.ptr.base, off, t))
        return Alias(('elem', v.ptr.base, tuple(ix), t))
    return NotImplemented


# --------------------------------------------------------------------- std
def s_identity(ex, e, nm):
    a = e['args'][0]
    l = ex.lv(a)
    return l[1] if l[0] == 'val' else Alias(l)


def s_minmax(ex, e, nm):
    if len(e['args']) == 1:
        v = A(ex, e, 0)
        if isinstance(v, Tup):
            ps = [to_p(ex.val(x)) for x in v.v]
        else:
            return ex.opq(e, nm)
    elif len(e['args']) == 2:
        ps = [to_p(A(ex, e, 0)), to_p(A(ex, e, 1))]
    else:
        return ex.opq(e, nm)
    if any(p is None for p in ps):
        return ex.opq_p(e, nm)
    return minmax(nm, ps)


def minmax(nm, ps):
    flat = set()
    for p in ps:
        a = p.single_atom()
        if a and a[0] == nm:
            flat |= set(a[1])
        else:
            flat.add(p)
    ks = [p for p in flat if p.const() is not None]
    if len(ks) > 1:
        k = (min if nm == 'min' else max)(p.const() for p in ks)
        flat = {p for p in flat if p.const() is None} | {P.c(k)}
    if len(flat) == 1:
        return next(iter(flat))
    return P.a((nm, frozenset(flat)))


def s_abs(ex, e, nm):
    p = to_p(A(ex, e, 0))
    if p is None:
        return ex.opq_p(e, 'abs')
    if p.const() is not None:
        return P.c(abs(p.const()))
    q = -p
    from poly import show
    return P.a(('abs', min(p, q, key=show)))


def s_distance(ex, e, nm):
    d = ex.distance(A(ex, e, 0), A(ex, e, 1), e)
    return d if d is not None else ex.opq_p(e, 'distance')


def s_fill(ex, e, nm):
    import loops
    a = A(ex, e, 0)
    if nm == 'fill_n':
        n = to_p(A(ex, e, 1))
    else:
        n = ex.distance(a, A(ex, e, 1), e)
    x = A(ex, e, 2)
    v = to_p(x)
    if not isinstance(a, Ptr) or n is None or not isinstance(a.off, P):
        return ex.opq(e, nm)
    loops.synth(ex, e, n, lambda i: ex.store(e, a.base, a.off + i, v if v is not None else x))
    return Ptr(a.base, a.off + n)


def s_copy(ex, e, nm):
    import loops
    a = A(ex, e, 0)
    if nm == 'copy_n':
        n = to_p(A(ex, e, 1))
    else:
        b = A(ex, e, 1)
        n = ex.distance(a, b, e)
    d = A(ex, e, 2)
    if isinstance(a, Ptr) and isinstance(d, Ptr) and n is not None and isinstance(a.off, P) and isinstance(d.off, P):
        t = strip_t(ex.ty(e['args'][0]))
        loops.synth(ex, e, n, lambda i: ex.put(('elem', d.base, d.off + i, ptr_elem(t)), ex.load(a.base, a.off + i, ptr_elem(t)), e))
        return Ptr(d.base, d.off + n)
    ex.emit('call', e, name='std::' + nm, args=[a, d])
    return ex.opq(e, nm)


def ptr_elem(t):
    t = strip_t(t)
    if t.startswith('__gnu_cxx::__normal_iterator<'):
        x = elem_type(t)
        if x.startswith('const '):
            x = x[6:]
        return x.rstrip('*').strip() if x.endswith('*') else x
    if t.endswith('*'):
        return strip_t(t[:-1])
    return ''


def callf(ex, f, args, e):
    """call a lambda / function value on values"""
    if isinstance(f, Lam):
        ee = {'k': 'call', 'l': e.get('l', 0), 'args': [], 'pt': []}
        if f.node is not None and len(f.node['spec']) >= 1:
            for s in f.node['spec']:
                if len(s['params']) == len(args):
                    ee['pt'] = [p['t'] for p in s['params']]
                    break
        return ex.val(ex.call_lambda(f, args, ee))
    r = ex.functor(f, [ex.val(a) for a in args])
    if r is not None:
        return r
    return ex.opq(e, 'callable')


def s_transform(ex, e, nm):
    import loops
    a = A(ex, e, 0)
    n = ex.distance(a, A(ex, e, 1), e)
    t = ptr_elem(ex.ty(e['args'][0]))
    if not (isinstance(a, Ptr) and isinstance(a.off, P)) or n is None:
        return ex.opq(e, nm)
    if len(e['args']) == 4:
        d = A(ex, e, 2)
        f = A(ex, e, 3)
        if not (isinstance(d, Ptr) and isinstance(d.off, P)):
            return ex.opq(e, nm)

        def body(i):
            v = callf(ex, f, [ex.load(a.base, a.off + i, t)], e)
            p = to_p(v)
            ex.store(e, d.base, d.off + i, p if p is not None else v)
    else:
        b = A(ex, e, 2)
        d = A(ex, e, 3)
        f = A(ex, e, 4)
        if not (isinstance(d, Ptr) and isinstance(d.off, P) and isinstance(b, Ptr) and isinstance(b.off, P)):
            return ex.opq(e, nm)

        def body(i):
            v = callf(ex, f, [ex.load(a.base, a.off + i, t), ex.load(b.base, b.off + i, t)], e)
            p = to_p(v)
            ex.store(e, d.base, d.off + i, p if p is not None else v)
    loops.synth(ex, e, n, body)
    return Ptr(d.base, d.off + n)


def s_foreach(ex, e, nm):
    import loops
    a = A(ex, e, 0)
    n = ex.distance(a, A(ex, e, 1), e)
    f = A(ex, e, 2)
    t = ptr_elem(ex.ty(e['args'][0]))
    if not (isinstance(a, Ptr) and isinstance(a.off, P)) or n is None:
        return ex.opq(e, nm)
    loops.synth(ex, e, n, lambda i: callf(ex, f, [Alias(('elem', a.base, a.off + i, t))], e))
    return f


def s_generate(ex, e, nm):
    import loops
    a = A(ex, e, 0)
    n = to_p(A(ex, e, 1)) if nm == 'generate_n' else ex.distance(a, A(ex, e, 1), e)
    f = A(ex, e, 2)
    if not (isinstance(a, Ptr) and isinstance(a.off, P)) or n is None:
        return ex.opq(e, nm)

    def body(i):
        v = callf(ex, f, [], e)
        p = to_p(v)
        ex.store(e, a.base, a.off + i, p if p is not None else v)
    loops.synth(ex, e, n, body)
    return Opq('void')


def s_accumulate(ex, e, nm):
    a = A(ex, e, 0)
    n = ex.distance(a, A(ex, e, 1), e)
    x0 = A(ex, e, 2)
    t = ptr_elem(ex.ty(e['args'][0]))
    if not (isinstance(a, Ptr) and isinstance(a.off, P)) or n is None:
        return ex.opq_p(e, nm)
    import loops
    f = A(ex, e, 3) if len(e['args']) > 3 else None
    acc = ('accum', ex.fresh('acc')[1])
    ex.env[acc] = x0

    def body(i):
        x = ex.load(a.base, a.off + i, t)
        cur = ex.env[acc]
        if f is None:
            p, q = to_p(cur), to_p(x)
            ex.env[acc] = p + q if p is not None and q is not None else ex.opq(e, 'accumulate')
        else:
            ex.env[acc] = callf(ex, f, [cur, x], e)
    loops.synth(ex, e, n, body)
    return ex.env.pop(acc)


def s_inner_product(ex, e, nm):
    a, n, b = A(ex, e, 0), None, None
    n = ex.distance(a, A(ex, e, 1), e)
    b = A(ex, e, 2)
    x0 = to_p(A(ex, e, 3))
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or n is None or x0 is None or len(e['args']) > 4:
        return ex.opq_p(e, nm)
    i = ex_loop(ex, e)
    return x0 + mk_sum((atom_id(i), ZERO, n, True), ex.load(a.base, a.off + P.a(i)) * ex.load(b.base, b.off + P.a(i)))


def ex_loop(ex, e, tag='i'):
    ex.uid += 1
    return ('loop', f'{tag}{ex.uid}', ex.uid)


def s_iota(ex, e, nm):
    import loops
    a = A(ex, e, 0)
    n = ex.distance(a, A(ex, e, 1), e)
    x0 = to_p(A(ex, e, 2))
    if not (isinstance(a, Ptr) and isinstance(a.off, P)) or n is None or x0 is None:
        return ex.opq(e, nm)
    loops.synth(ex, e, n, lambda i: ex.store(e, a.base, a.off + i, x0 + i))
    return Opq('void')


def s_scan(ex, e, nm):
    """exclusive_scan / inclusive_scan / partial_sum into d"""
    import loops
    a = A(ex, e, 0)
    n = ex.distance(a, A(ex, e, 1), e)
    d = A(ex, e, 2)
    x0 = ZERO
    if nm == 'exclusive_scan' and len(e['args']) > 3:
        x0 = to_p(A(ex, e, 3))
    if not (isinstance(a, Ptr) and isinstance(d, Ptr) and isinstance(a.off, P) and isinstance(d.off, P)) or n is None or x0 is None:
        ex.emit('call', e, name='std::' + nm, args=[a, d])
        return ex.opq(e, nm)
    src = a.base
    if a.base == d.base:
        src = ex.newvec(e)
        ex.emit('vcopy', e, base=src, val=a.base)

    def body(i):
        j = ex_loop(ex, e, 'j')
        hi = i if nm == 'exclusive_scan' else i + ONE
        ex.store(e, d.base, d.off + i, x0 + mk_sum((atom_id(j), ZERO, hi, True), P.a(('ld', src, a.off + P.a(j)))))
    loops.synth(ex, e, n, body)
    return Ptr(d.base, d.off + n)


def s_pair(ex, e, nm):
    return Tup([ex.ev(a) for a in e['args']])


def s_tie(ex, e, nm):
    out = []
    for a in e['args']:
        l = ex.lv(a)
        out.append(l[1] if l[0] == 'val' else Alias(l))
    return Tup(out)


def tuple_cmp(ex, op, u, v, t):
    """lexicographic comparison of pairs and tuples, or None"""
    if op == '!=':
        c = tuple_cmp(ex, '==', u, v, t)
        return None if c is None else c_not(c)
    if op in ('>', '<='):
        c = tuple_cmp(ex, '<', v, u, t)
        return c if c is None or op == '>' else c_not(c)
    if op == '>=':
        c = tuple_cmp(ex, '<', u, v, t)
        return None if c is None else c_not(c)
    ts = sym.targs(t)
    if not (isinstance(u, Tup) and isinstance(v, Tup) and len(u.v) == len(v.v) == len(ts)):
        return None
    eq, less = True, False
    for x, y, tt in zip(u.v, v.v, ts):
        x, y = to_p(ex.val(x)), to_p(ex.val(y))
        if x is None or y is None:
            return None
        tt = strip_t(tt.rstrip('& '))
        less = c_or(less, c_and(eq, mk_lti(x - y) if is_int(tt) else mk_lt(x - y)))
        eq = c_and(eq, mk_eq(x - y))
    return eq if op == '==' else less


def s_get(ex, e, nm):
    ta = e.get('ta') or []
    l = ex.lv(e['args'][0])
    v = ex.get(l) if l[0] != 'val' else l[1]
    k = next((x for x in ta if isinstance(x, int)), None)
    if k is None:
        for x in ta:
            if isinstance(x, str) and x.rstrip('uUlL').isdigit():
                k = int(x.rstrip('uUlL'))
                break
    if k is None:
        return NotImplemented
    if isinstance(v, Tup) and k < len(v.v):
        return Alias(('tup', v, k))
    if isinstance(v, Obj):
        return Alias(('fld', v, f'#{k}', ex.ty(e)))
    return NotImplemented


def exchange(ex, e, l1, a, l2, b):
    """two containers change places; with a member of an object, their contents do"""
    if isinstance(a, Vec) and isinstance(b, Vec) and a.base != b.base and (l1[0] == 'fld') != (l2[0] == 'fld'):
        t = ('loc', str(e.get('l', 0)), ex.fresh('swap')[1])
        ex.emit('vcopy', e, base=t, off=ex.size_of(a), val=a.base)
        ex.emit('vcopy', e, base=a.base, off=ex.size_of(b), val=b.base)
        ex.emit('vcopy', e, base=b.base, off=ex.size_of(a), val=t)
        setq(ex, l1, Vec(a.base, b.size, a.et))
        setq(ex, l2, Vec(b.base, a.size, b.et))
        return
    setq(ex, l1, b)
    setq(ex, l2, a)


def s_swap(ex, e, nm):
    l1, l2 = ex.lv(e['args'][0]), ex.lv(e['args'][1])
    a, b = ex.get(l1), ex.get(l2)
    if isinstance(a, Vec) or isinstance(b, Vec):
        exchange(ex, e, l1, a, l2, b)
        return Opq('void')
    ex.put(l1, b, e)
    ex.put(l2, a, e)
    return Opq('void')


def s_make(ex, e, nm):
    """make_shared<T>(args): run the constructor of T when it is known."""
    t = strip_t(ex.ty(e))
    inner = elem_type(t)
    if inner.endswith('[]') and e['args']:
        n = to_p(A(ex, e, 0))
        key = ('new', str(e.get('l', 0)), ex.fresh('n')[1])
        ex.emit('alloc', e, base=key, val=n)
        return Ptr(key, ZERO, n)
    vs = [ex.val(x) for x in ex.args(e)]
    o = Obj(('mk', inner, ex.fresh('m')[1]), inner, {'__args__': Tup(vs)})
    if len(vs) == 1 and isinstance(vs[0], Obj) and strip_t(vs[0].cls) == inner:
        o = Obj(vs[0].key, vs[0].cls, dict(vs[0].fields))
        return o
    f = ctor_of(ex, inner, [ex.ty(x) for x in e['args']])
    if f is not None and len(ex.stack) < ex.MAXDEPTH and not ex.recursive(f):
        o.fields.clear()
        ex.inline(f, ex.args(e), o, e)
        return o
    ex.emit('call', e, name='std::' + nm, args=vs)
    return o


def ctor_of(ex, cls, ts):
    """the constructor of class cls that takes arguments of types ts, when there is no doubt"""
    P = ex.prog
    if not hasattr(P, '_ctors'):
        P._ctors = {}
        for f in P.fns:
            if f.d.get('ctor') and f.body is not None:
                P._ctors.setdefault(f.q.rsplit('::', 1)[0], []).append(f)
    ts = [strip_t(t) for t in ts]
    c = [f for f in P._ctors.get(cls, ()) if len(f.params) == len(ts)
         and not (len(ts) == 1 and strip_t(f.tu.types[f.params[0]['t']]) == cls)]
    if len(c) > 1:
        c = [f for f in c if [strip_t(f.tu.types[p['t']]) for p in f.params] == ts]
    return c[0] if len(c) >= 1 else None


class Pred:
    """condition of a sweep over [0, n): per element, symbolically or element by element"""

    def __init__(self, n, lid=None, c=None, each=None):
        self.n, self.lid, self.c, self.each = n, lid, c, each

    def neg(self):
        return Pred(self.n, self.lid, None if self.each else c_not(self.c), [c_not(x) for x in self.each] if self.each else None)

    def count(self):
        if self.each:
            r = ZERO
            for x in self.each:
                r = r + to_p(C(x))
            return r
        return mk_sum((self.lid, ZERO, self.n, self.c), ONE)

    def first(self):
        """index of the first element that satisfies the condition, or n"""
        import loops
        if self.each:
            r = self.n
            for k in range(len(self.each) - 1, -1, -1):
                r = mk_ite(self.each[k], P.c(k), r)
            return r
        return loops.first_index(self.lid, ZERO, self.n, self.c)


def sweep(ex, e, n, cond):
    """Pred of cond(i) over [0, n), or None"""
    import loops
    k1, k2 = ('sweep', ex.fresh('s')[1]), ('sweepi', ex.fresh('s')[1])
    each = {}

    def body(i):
        c = cond(i)
        ex.env[k1], ex.env[k2] = C(c) if c is not None else Opq('condition'), i
        if i.const() is not None:
            each[int(i.const())] = c
    if n.const() is not None and n.const() <= 0:
        return Pred(ZERO, each=[]) if False else None
    loops.synth(ex, e, n, body)
    v, i = ex.env.pop(k1, None), ex.env.pop(k2, None)
    if i is None or not isinstance(i, P):
        return None
    k = n.const()
    if k is not None and each and len(each) == k:
        return Pred(n, each=[each[j] for j in range(int(k))]) if all(x is not None for x in each.values()) else None
    ids = i.atoms()
    if not isinstance(v, C) or len(ids) != 1:
        return None
    lid = next(iter(ids))
    if ATOMS[lid][0] != 'loop' or not loops.plain(v.c, lid, ()):
        return None
    return Pred(n, lid, v.c)


def s_all_any(ex, e, nm):
    a = A(ex, e, 0)
    n = ex.distance(a, A(ex, e, 1), e)
    f = A(ex, e, 2)
    t = ptr_elem(ex.ty(e['args'][0]))
    if not (isinstance(a, Ptr) and isinstance(a.off, P)) or n is None:
        return NotImplemented

    def cond(i):
        if nm in ('find', 'count'):
            x = to_p(ex.load(a.base, a.off + i, t))
            y = to_p(f)
            return mk_eq(x - y) if x is not None and y is not None else None
        v = callf(ex, f, [Alias(('elem', a.base, a.off + i, t))], e)
        return to_c(v) if not isinstance(v, Opq) else None
    p = sweep(ex, e, n, cond)
    if nm == 'partition_point':
        ex.sorted.add(a.base)
    if p is None:
        if nm in ('all_of', 'any_of', 'none_of'):
            return C(('opqc', ex.fresh('c')))
        return ex.opq(e, nm)
    if nm == 'all_of':
        return C(mk_eq(p.neg().count()))
    if nm == 'none_of':
        return C(mk_eq(p.count()))
    if nm == 'any_of':
        return C(mk_lti(-p.count()))
    if nm in ('count', 'count_if'):
        return p.count()
    return Ptr(a.base, a.off + (p if nm not in ('find_if_not', 'partition_point') else p.neg()).first())


def s_sorted(ex, e, nm):
    a = A(ex, e, 0)
    n = ex.distance(a, A(ex, e, 1), e)
    f = A(ex, e, 2) if len(e['args']) > 2 else None
    t = ptr_elem(ex.ty(e['args'][0]))
    if not (isinstance(a, Ptr) and isinstance(a.off, P)) or n is None:
        return NotImplemented

    def cond(i):
        x, y = ex.load(a.base, a.off + i, t), ex.load(a.base, a.off + i + ONE, t)
        if f is not None:
            v = callf(ex, f, [Alias(('elem', a.base, a.off + i + ONE, t)), Alias(('elem', a.base, a.off + i, t))], e)
            return to_c(v) if not isinstance(v, Opq) else None
        p, q = to_p(x), to_p(y)
        return (mk_lti if is_int(t) else mk_lt)(q - p) if p is not None and q is not None else None
    p = sweep(ex, e, n - ONE, cond)
    return C(mk_eq(p.count())) if p is not None else NotImplemented


def s_equal(ex, e, nm):
    a = A(ex, e, 0)
    n = ex.distance(a, A(ex, e, 1), e)
    b = A(ex, e, 2)
    if len(e['args']) != 3 or not (isinstance(a, Ptr) and isinstance(a.off, P) and isinstance(b, Ptr) and isinstance(b.off, P)) or n is None:
        return NotImplemented
    c = same_elems(ex, e, n, a, b)
    return C(c) if c is not None else NotImplemented


def same_elems(ex, e, n, a, b):
    t = ptr_elem(ex.ty(e['args'][0])) if e['args'] else ''

    def cond(i):
        p, q = to_p(ex.load(a.base, a.off + i, t)), to_p(ex.load(b.base, b.off + i, t))
        return c_not(mk_eq(p - q)) if p is not None and q is not None else None
    p = sweep(ex, e, n, cond)
    return mk_eq(p.count()) if p is not None else None


def vec_eq(ex, e, u, v):
    """u == v for two vectors of numbers"""
    x, y = to_p(ex.load(u.base, ZERO, '')), to_p(ex.load(v.base, ZERO, ''))
    if x is None or y is None:
        return None
    n = ex.size_of(u)
    c = same_elems(ex, dict(e, args=[]), n, Ptr(u.base, ZERO), Ptr(v.base, ZERO))
    return c_and(mk_eq(n - ex.size_of(v)), c) if c is not None else None


def s_advance(ex, e, nm):
    if nm == 'next' or nm == 'prev':
        a = A(ex, e, 0)
        d = to_p(A(ex, e, 1)) if len(e['args']) > 1 else ONE
        if isinstance(a, Ptr) and isinstance(a.off, P) and d is not None:
            return Ptr(a.base, a.off + d if nm == 'next' else a.off - d)
        return ex.opq(e, nm)
    lv = ex.lv(e['args'][0])
    a = ex.get(lv)
    d = to_p(A(ex, e, 1))
    if isinstance(a, Ptr) and isinstance(a.off, P) and d is not None:
        ex.put(lv, Ptr(a.base, a.off + d), e)
        return Opq('void')
    return ex.opq(e, nm)


def s_size(ex, e, nm):
    v = A(ex, e, 0)
    if isinstance(v, (Vec, Tup)):
        if nm == 'size':
            return ex.size_of(v)
        if isinstance(v, Vec) and nm in ('begin', 'cbegin', 'data'):
            return Ptr(v.base, ZERO)
        if isinstance(v, Vec) and nm in ('end', 'cend'):
            return Ptr(v.base, ex.size_of(v))
    return NotImplemented


def s_conj(ex, e, nm):
    v = A(ex, e, 0)
    return v if isinstance(v, P) else NotImplemented


STD = {'move': s_identity, 'forward': s_identity, 'ref': s_identity, 'cref': s_identity, 'as_const': s_identity,
       'min': s_minmax, 'max': s_minmax, 'abs': s_abs, 'fabs': s_abs, 'distance': s_distance, 'fill': s_fill, 'fill_n': s_fill,
       'copy': s_copy, 'copy_n': s_copy, 'transform': s_transform, 'for_each': s_foreach, 'accumulate': s_accumulate,
       'inner_product': s_inner_product, 'iota': s_iota, 'exclusive_scan': s_scan, 'inclusive_scan': s_scan, 'partial_sum': s_scan,
       'make_pair': s_pair, 'make_tuple': s_pair, 'tie': s_tie, 'get': s_get, 'swap': s_swap, 'make_shared': s_make, 'make_unique': s_make,
       'all_of': s_all_any, 'any_of': s_all_any, 'none_of': s_all_any, 'count_if': s_all_any, 'count': s_all_any, 'find': s_all_any,
       'find_if': s_all_any, 'partition_point': s_all_any, 'find_if_not': s_all_any, 'is_sorted': s_sorted, 'equal': s_equal, 'next': s_advance, 'prev': s_advance, 'advance': s_advance,
       'size': s_size, 'begin': s_size, 'end': s_size, 'data': s_size, 'cbegin': s_size, 'cend': s_size,
       'generate': s_generate, 'generate_n': s_generate}
STD = {k: v for k, v in STD.items() if v}


# -------------------------------------------------------------------- BLAS
def opv(p, which):
    """is `p` the enum constant for NoTrans/Trans/...?"""
    a = p.single_atom() if isinstance(p, P) else None
    return a is not None and str(a[-1]).endswith(which)


ENUMV = {67: 'C', 78: 'N', 84: 'T', 82: 'R', 85: 'U', 76: 'L', 71: 'G', 86: 'V', 65: 'A', 83: 'S', 79: 'O'}


def enum_name(p, kind='op'):
    k = p.const() if isinstance(p, P) else None
    if k is not None and int(k) in ENUMV:
        c = ENUMV[int(k)]
        if kind == 'layout':
            return {'C': 'ColMajor', 'R': 'RowMajor'}.get(c)
        if kind == 'uplo':
            return {'U': 'Upper', 'L': 'Lower', 'G': 'General'}.get(c)
        return {'N': 'NoTrans', 'T': 'Trans', 'C': 'ConjTrans'}.get(c, c)
    a = p.single_atom() if isinstance(p, P) else None
    if a is None:
        return None
    s = str(a[-1])
    return s.split('::')[-1]


def mat(ex, ptr, tr, i, k, ld):
    """element (i,k) of op(M)"""
    off = ptr.off + (i + k * ld if not tr else k + i * ld)
    return ex.load(ptr.base, off)


def b_gemm(ex, e):
    v = [ex.ev(a) for a in e['args']]
    if len(v) != 14:
        return NotImplemented
    lay, ta, tb = enum_name(v[0], 'layout'), enum_name(v[1]), enum_name(v[2])
    M, N, K, al, Ap, lda, Bp, ldb, be, Cp, ldc = v[3:14]
    nums = [to_p(x) for x in (M, N, K, al, lda, ldb, be, ldc)]
    if any(x is None for x in nums) or not all(isinstance(x, Ptr) and isinstance(x.off, P) for x in (Ap, Bp, Cp)) or lay not in ('ColMajor', 'RowMajor'):
        ex.emit('call', e, name='blas::gemm', args=v)
        return ex.opq(e, 'gemm')
    M, N, K, al, lda, ldb, be, ldc = nums
    if ta not in ('NoTrans', 'Trans', 'ConjTrans') or tb not in ('NoTrans', 'Trans', 'ConjTrans'):
        ex.emit('call', e, name='blas::gemm', args=v)
        return ex.opq(e, 'gemm')
    ex.emit('blas', e, name='gemm', args=v)
    rt, st = ta != 'NoTrans', tb != 'NoTrans'
    if lay == 'RowMajor':
        rt, st = not rt, not st
    import loops

    def inner(i, j):
        k = ex_loop(ex, e, 'k')
        kp = P.a(k)
        val = mk_sum((atom_id(k), ZERO, K, True), mat(ex, Ap, rt, i, kp, lda) * mat(ex, Bp, st, kp, j, ldb)) * al
        off = Cp.off + (i + j * ldc if lay == 'ColMajor' else j + i * ldc)
        if be.is_zero():
            ex.emit('st', e, base=Cp.base, off=off, val=val, name='gemm')
        elif be == ONE:
            ex.emit('acc', e, base=Cp.base, off=off, val=val, name='gemm')
        else:
            ex.emit('st', e, base=Cp.base, off=off, val=val + be * ex.load(Cp.base, off), name='gemm')
    loops.synth(ex, e, N, lambda j: loops.synth(ex, e, M, lambda i: inner(i, j)))
    return Opq('void')


def ptrs(*a):
    return all(isinstance(x, Ptr) and isinstance(x.off, P) for x in a)


def b_dot(ex, e):
    v = [ex.ev(a) for a in e['args']]
    ex.emit('blas', e, name='dot', args=v)
    n, x, ix, y, iy = v
    n, ix, iy = to_p(n), to_p(ix), to_p(iy)
    if not ptrs(x, y) or None in (n, ix, iy):
        return ex.opq_p(e, 'dot')
    i = ex_loop(ex, e)
    ip = P.a(i)
    return mk_sum((atom_id(i), ZERO, n, True), ex.load(x.base, x.off + ip * ix) * ex.load(y.base, y.off + ip * iy))


def b_axpy(ex, e):
    import loops
    v = [ex.ev(a) for a in e['args']]
    ex.emit('blas', e, name='axpy', args=v)
    n, al, x, ix, y, iy = v
    n, al, ix, iy = to_p(n), to_p(al), to_p(ix), to_p(iy)
    if not ptrs(x, y) or None in (n, al, ix, iy):
        return ex.opq(e, 'axpy')
    loops.synth(ex, e, n, lambda i: ex.emit('acc', e, base=y.base, off=y.off + i * iy, val=al * ex.load(x.base, x.off + i * ix)))
    return Opq('void')


def b_copy(ex, e):
    import loops
    v = [ex.ev(a) for a in e['args']]
    ex.emit('blas', e, name='copy', args=v)
    n, x, ix, y, iy = v
    n, ix, iy = to_p(n), to_p(ix), to_p(iy)
    if not ptrs(x, y) or None in (n, ix, iy):
        return ex.opq(e, 'copy')
    loops.synth(ex, e, n, lambda i: ex.store(e, y.base, y.off + i * iy, ex.load(x.base, x.off + i * ix)))
    return Opq('void')


def b_swap(ex, e):
    v = [ex.ev(a) for a in e['args']]
    ex.emit('blas', e, name='swap', args=v)
    ex.emit('call', e, name='blas::swap', args=v)
    return Opq('void')


def b_scal(ex, e):
    import loops
    v = [ex.ev(a) for a in e['args']]
    ex.emit('blas', e, name='scal', args=v)
    n, al, x, ix = v
    n, al, ix = to_p(n), to_p(al), to_p(ix)
    if not ptrs(x) or None in (n, al, ix):
        return ex.opq(e, 'scal')
    loops.synth(ex, e, n, lambda i: ex.emit('st', e, base=x.base, off=x.off + i * ix, val=al * ex.load(x.base, x.off + i * ix), name='scal'))
    return Opq('void')


def b_nrm2(ex, e):
    v = [ex.ev(a) for a in e['args']]
    ex.emit('blas', e, name='nrm2', args=v)
    n, x, ix = v
    n, ix = to_p(n), to_p(ix)
    if not ptrs(x) or None in (n, ix):
        return ex.opq_p(e, 'nrm2')
    i = ex_loop(ex, e)
    l = ex.load(x.base, x.off + P.a(i) * ix)
    return P.a(('call', 'sqrt', mk_sum((atom_id(i), ZERO, n, True), l * l)))


def b_any(name):
    def f(ex, e):
        v = [ex.ev(a) for a in e['args']]
        ex.emit('blas', e, name=name, args=v)
        ex.emit('call', e, name='blas::' + name, args=v)
        t = strip_t(ex.ty(e))
        if t == 'void':
            return Opq('void')
        ex.uid += 1
        return P.a(('val', ('ret', name, ex.uid) + ex.loopdep()))
    return f


def l_any(name):
    def f(ex, e):
        v = [ex.ev(a) for a in e['args']]
        ex.emit('lapack', e, name=name, args=v)
        if name == 'lacpy':
            import loops
            _, m, n, a, lda, b, ldb = v
            m, n, lda, ldb = (to_p(x) for x in (m, n, lda, ldb))
            ty = enum_name(v[0], 'uplo')
            if ptrs(a, b) and None not in (m, n, lda, ldb) and ty in ('General',):
                loops.synth(ex, e, n, lambda j: loops.synth(ex, e, m, lambda i: ex.store(e, b.base, b.off + i + j * ldb, ex.load(a.base, a.off + i + j * lda))))
                return ZERO
        ex.emit('call', e, name='lapack::' + name, args=v)
        ex.uid += 1
        return P.a(('val', ('ret', name, ex.uid) + ex.loopdep()))
    return f


BLAS = {'gemm': b_gemm, 'dot': b_dot, 'axpy': b_axpy, 'copy': b_copy, 'swap': b_swap, 'scal': b_scal, 'nrm2': b_nrm2,
        'trsm': b_any('trsm'), 'iamax': b_any('iamax'), 'gemv': b_any('gemv'), 'ger': b_any('ger'), 'trmm': b_any('trmm'), 'syrk': b_any('syrk'), 'asum': b_any('asum')}
LAPACK = {k: l_any(k) for k in ('gelqf', 'gelss', 'gesvd', 'lacpy', 'ormlq', 'potrf', 'syev', 'heev', 'syevd', 'geqrf', 'ormqr', 'laset', 'getrf', 'gesv', 'sygv', 'orgqr', 'orglq')}
